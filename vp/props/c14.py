"""C14: value-and-gradient agrees with the log-likelihood of every model."""
import numpy as np

from vp import core, comb, mods


def WARM():
  mods.warm()
  comb.warm()


def _examine(name, model, params, x, enc, multilinear, seed, K, mag, fd=True):
  """x integer rows, enc their float encoding (the samplers' argument)."""
  import jax
  import jax.numpy as jnp
  fwd = jax.jit(model.forward)
  vg = jax.jit(model.get_value_and_grad)
  ll_x = np.asarray(fwd(params, jnp.asarray(x)), np.float64)
  ll, grad = vg(params, jnp.asarray(enc))
  ll, grad = np.asarray(ll, np.float64), np.asarray(grad, np.float64)
  core.require(ll.shape == ll_x.shape, '%s: values have shape %s, expected %s',
               name, ll.shape, ll_x.shape)
  tol = 3e-5 * (np.abs(ll_x) + mag)
  bad = ~(np.abs(ll - ll_x) <= tol)
  core.require(not bad.any(), '%s: value %.6g returned with the gradient, '
               'log-likelihood %.6g', name, ll[bad][:1], ll_x[bad][:1])
  core.require(grad.shape == enc.shape, '%s: gradient has shape %s for samples '
               'of shape %s', name, grad.shape, enc.shape)
  core.require(np.isfinite(grad).all(), '%s: gradient is not finite', name)
  b = len(enc)
  r = core.rng_of('dir', seed)
  # derivative along random directions by central differences, row by row
  for t in range(2 if fd else 0):
    d = r.normal(size=enc.shape).astype(np.float32)
    d /= np.sqrt((d.reshape(b, -1) ** 2).sum(1)).reshape(
        (b,) + (1,) * (d.ndim - 1))
    h = 1e-2
    up = np.asarray(fwd(params, jnp.asarray(enc + h * d)), np.float64)
    dn = np.asarray(fwd(params, jnp.asarray(enc - h * d)), np.float64)
    h2 = 2e-2
    up2 = np.asarray(fwd(params, jnp.asarray(enc + h2 * d)), np.float64)
    dn2 = np.asarray(fwd(params, jnp.asarray(enc - h2 * d)), np.float64)
    # Richardson step removes the cubic term; its size bounds the error
    d1, d2 = (up - dn) / (2 * h), (up2 - dn2) / (2 * h2)
    num = (4 * d1 - d2) / 3
    ana = (grad * d).reshape(b, -1).sum(1)
    noise = 1e-6 * (np.abs(ll_x) + mag) / h + np.abs(d1 - d2)
    gn = np.sqrt((grad.reshape(b, -1) ** 2).sum(1))
    lim = 4 * noise + 0.02 * gn + 1e-4
    bad = ~(np.abs(num - ana) <= lim)
    if bad.any():
      j = int(np.argmax(bad))
      raise core.Violation('%s: the gradient predicts a directional derivative '
                           'of %.6g, the log-likelihood changes at rate %.6g' %
                           (name, ana[j], num[j]))
  # rows do not influence each other
  if b > 1:
    perm = np.roll(np.arange(b), 1)
    ll2, g2 = vg(params, jnp.asarray(enc[perm]))
    gs = np.abs(grad).max() + 1e-3
    core.require(np.abs(np.asarray(g2) - grad[perm]).max() <= 1e-4 * gs + 1e-5,
                 '%s: the gradient of a row depends on its place in the batch',
                 name)
  if multilinear:
    flat = x.reshape(b, -1)
    d = flat.shape[1]
    rows, score = [], []
    if enc.ndim == x.ndim:
      g = grad.reshape(b, d)
      for i in range(d):
        y = flat.copy()
        y[:, i] = 1 - y[:, i]
        rows.append(y)
        score.append((1 - 2 * flat[:, i]) * g[:, i])
    else:
      g = grad.reshape(b, d, K)
      br = np.arange(b)
      for i in range(d):
        for c in range(K):
          y = flat.copy()
          y[:, i] = c
          rows.append(y)
          score.append(g[:, i, c] - g[br, i, flat[:, i]])
    lls = np.asarray(fwd(params, jnp.asarray(np.concatenate(rows).reshape(
        (-1,) + x.shape[1:]))), np.float64).reshape(len(rows), b)
    for k, (sc, v) in enumerate(zip(score, lls)):
      t = 5e-5 * (np.abs(ll_x) + np.abs(v) + mag)
      bad = ~(np.abs(sc - (v - ll_x)) <= t)
      if bad.any():
        j = int(np.argmax(bad))
        raise core.Violation('%s: the gradient scores move #%d of %s at %.6g, '
                             'the log-likelihood changes by %.6g' %
                             (name, k, flat[j].tolist(), sc[j],
                              v[j] - ll_x[j]))


def check_classic(case):
  import jax
  import jax.numpy as jnp
  model, params = mods.build(case)
  jp = jax.tree_util.tree_map(jnp.asarray, params)
  C = mods.n_categories(case)
  x = mods.samples(case, case['B'])
  enc = x.astype(np.float32) if C == 2 else mods.one_hot(x, C)
  name = case['model']
  mag = 1.0
  if name in ('bernoulli', 'categorical', 'ising', 'potts'):
    mag += float(np.abs(np.asarray(params['params'])).sum())
  elif name == 'fhmm':
    mag += float(np.abs(mods.oracle(case, params, x)[1]).max())
  _examine(name, model, jp, x, enc, name in (
      'bernoulli', 'categorical', 'ising', 'potts'), case['seed'], C, mag)
  return '%s-C%d' % (name, C), x[0].size > 1


def check_comb(case):
  import jax.numpy as jnp
  with comb.Dataset(case) as ds:
    model, cfg = ds.model()
    insts = [(i, p) for i, p, _ in ds.instances(model) if i >= 0]
    core.require(len(insts) == len(ds.expected), 'instances are missing')
    total, K = cfg.model.max_num_nodes, cfg.model.num_categories
    r = core.rng_of('x', case['seed'])
    i, params = insts[0]
    n, edges, _ = ds.expected[i]
    x = r.integers(0, K, size=(4, total)).astype(np.int32)
    p = dict(params, temperature=jnp.float32(case['temp']))
    oh = ds.model_name == 'normcut'
    enc = np.eye(K, dtype=np.float32)[x] if oh else x.astype(np.float32)
    w = sum(abs(v) for v in edges.values()) + n + 1
    if oh:
      w = w + total ** 2
      if case['penalty'] == 0:
        if total < 2 * K:
          return 'normcut-small', False
        x[:, :2 * K] = np.arange(2 * K) % K
        enc = np.eye(K, dtype=np.float32)[x]
        if not edges or min(np.bincount(x[0], weights=np.pad(
            comb.degrees(n, edges), (0, total - n)), minlength=K)) < 0.5:
          return 'normcut-empty', False
    smooth = not (oh and case['penalty'] > 0 and case['stype'] == 'span')
    _examine(ds.kind, model, p, x, enc, ds.model_name in ('maxcut', 'mis'),
             case['seed'], K, w / case['temp'], fd=smooth)
    return ds.kind, bool(edges)


def _comb(kinds, n_hi=7, **kw):
  def f():
    from hypothesis import strategies as st
    return st.builds(lambda c, t: dict(c, temp=t), comb.draw_dataset(kinds, n_hi=n_hi, **kw),
                     st.sampled_from([1.0, 0.3, 4.0]))
  return f


def _cl(n, **kw):
  return lambda: mods.draw((n,), pscales=[1.0, 0.2, 3.0], **kw)


STRATA = [core.Stratum(n, _cl(n), check_classic, q, q * 25) for n, q in [
    ('bernoulli', 24), ('categorical', 24), ('ising', 32), ('potts', 32),
    ('fhmm', 40), ('rbm', 40), ('resnet', 8)]] + [
        core.Stratum(n, _comb(k, 12 if n == 'normcut' else 7), check_comb, 32, 800) for n, k in [
            ('maxcut', ('ba', 'er', 'optsicom')),
            ('mis', ('ertest', 'er_density', 'satlib')),
            ('maxclique', ('rb', 'twitter')),
            ('normcut', ('nets', 'gap_rand'))]]
STRATA += [
    core.Stratum('large', lambda: mods.draw(
        ('bernoulli', 'categorical', 'ising', 'potts', 'fhmm', 'rbm'),
        pscales=[1.0, 0.2], big=True), check_classic, 32, 500),
    core.Stratum('large-graphs', _comb(('ba', 'ertest', 'rb', 'nets',
                                        'optsicom', 'twitter'), 50, n_lo=25,
                                       g_hi=1), check_comb, 24, 400)]
RULE = ('A case is any of the eleven models with generated configuration, '
        'parameters and samples. Values are compared with the log-likelihood '
        'of the integer samples, gradients with Richardson-extrapolated '
        'central differences along random directions, and, for models linear '
        'in each coordinate, with the exact change of every single-coordinate '
        'move. Non-trivial: more than one coordinate / some edge.')
ASSUMPTIONS = ['float32: derivative agreement to 2% of the gradient norm (the '
               'exact-flip comparison is at 5e-5).',
               'Text infilling gradients are checked in C30.']
