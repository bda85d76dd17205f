"""Does one sampler transition leave the target distribution unchanged?

x ~ pi exactly (tiny enumerable space), one real step, compare the law of the
result with pi.  Chains are grouped into batches as the library runs them; all
statistics are computed per group (chains of one group may share randomness,
e.g. hammingball's radius), groups are independent, so a group-level z
statistic is asymptotically N(0,1) under the property.  Two stages: stage 1 is
a cheap screen, only a stage 2 excess (independent keys, 16x the chains, above
7 sigma) is a violation, so the false-alarm probability is negligible.

The sampler state (adapted step size, sweep index, counters) is never built by
hand: every group first runs `warmup` real steps and keeps whatever state it
ended in; then its samples are replaced by fresh exact draws from pi.
"""
import numpy as np

from vp import core, samp

Z1, Z2 = 4.0, 7.0
CHUNK = 1 << 14
STAGE1, STAGE2 = 8, 128          # chunks


def _features(model, states, pi):
  """Functionals of the state, S x F; energy, marginals, pairs, indicators."""
  ll = np.log(np.maximum(pi, 1e-30))
  ll = np.clip(ll - (pi * ll).sum(), -12, 12)
  cols = [ll[:, None]]
  for c in range(1, model.C):
    cols.append((states == c).astype(float))
  d = states.shape[1]
  pairs = [(i, j) for i in range(d) for j in range(i + 1, d)][:15]
  if pairs:
    cols.append(np.stack([(states[:, i] == states[:, j]).astype(float)
                          for i, j in pairs], 1))
  cols.append(np.eye(len(states)))
  return np.concatenate(cols, 1).astype(np.float32)


class _Acc:

  def __init__(self):
    self.n = 0
    self.s = self.ss = self.nz = 0.0

  def add(self, d):
    self.n += d.shape[0]
    self.s = self.s + d.sum(0, dtype=np.float64)
    self.ss = self.ss + np.einsum('gf,gf->f', d, d, dtype=np.float64)
    self.nz = self.nz + (d != 0).sum(0)

  def z(self):
    m = self.s / self.n
    v = np.maximum(self.ss / self.n - m * m, 1e-30)
    # a functional that moved only a handful of times is not yet normal
    return np.where(self.nz >= 300, m / np.sqrt(v / self.n), 0.0)


def run(case, model, step_groups, what='sampler', tag0=''):
  """step_groups(x[G,B,...], key) -> new x[G,B,...] (integers)."""
  states = model.states()
  pi = model.pi()
  feats = _features(model, states, pi)
  b = case['B']
  g = max(1, CHUNK // b)
  shape = tuple(case['shape'])
  moved = []

  def chunk(tag):
    r = core.rng_of('pi', tag0, tag, case['xseed'])
    idx = r.choice(len(pi), size=(g, b), p=pi)
    x = states[idx].reshape((g, b) + shape)
    y = np.asarray(step_groups(x, samp.key_of(tag0, tag, case['xseed'])))
    core.require(y.shape == x.shape, 'step changed the batch shape %s -> %s',
                 x.shape, y.shape)
    core.require(np.issubdtype(y.dtype, np.integer) or y.dtype == bool,
                 'step returned dtype %s', y.dtype)
    yi = y.reshape(g, b, -1).astype(np.int64)
    core.require(((yi >= 0) & (yi < model.C)).all(),
                 'step left the sample space')
    jdx = model.index_of(yi)
    moved.append(float((jdx != idx).mean()))
    return (feats[jdx] - feats[idx]).sum(1)

  acc = _Acc()
  for i in range(STAGE1):
    acc.add(chunk('s1-%d' % i))
  z1 = np.abs(acc.z()).max()
  if z1 > Z1:
    acc = _Acc()
    for i in range(STAGE2):
      acc.add(chunk('s2-%d' % i))
      if i in (STAGE2 // 8 - 1,) and np.abs(acc.z()).max() < 3.5:
        break        # clearly noise
    z = acc.z()
    f = int(np.abs(z).argmax())
    if np.abs(z[f]) > Z2:
      raise core.Violation(
          'one step of %s does not leave the target distribution invariant: '
          'functional #%d drifts by %.4g per chain per step (z=%.1f over %d '
          'chains, screen z=%.1f)' %
          (what, f, acc.s[f] / acc.n / b, z[f], acc.n * b, z1))
  return float(np.mean(moved))


def sampler_case(case):
  """Stationarity of a library sampler on reference models of ours."""
  import jax
  import jax.numpy as jnp
  sampler = samp.build_sampler(case)
  models = [samp.RefModel(case['shape'], case['C'], case['mseed'] + i, s)
            for i, s in enumerate(case['scales'])]
  b = case['B']
  g = max(1, CHUNK // b)
  model0 = models[0]

  def one(x, key, st, params):
    nx, st2, _ = sampler.step(model=model0, rng=key, x=x, model_param=params,
                              state=st)
    return nx, st2

  stepv = jax.jit(jax.vmap(one, in_axes=(0, 0, 0, None)))
  st0 = sampler.make_init_state(samp.key_of('init', case['xseed']))
  shp = jax.eval_shape(
      one, jnp.zeros((b,) + tuple(case['shape']), jnp.int32),
      jax.random.PRNGKey(0), st0, model0.params)[1]
  # same values, in the dtypes the sampler itself settles on after one step
  st0 = {k: jnp.asarray(v).astype(shp[k].dtype) if k in st0 else None
         for k, v in st0.items()}
  rep = lambda t: jax.tree_util.tree_map(
      lambda v: jnp.broadcast_to(v, (g,) + jnp.shape(v)), t)
  moved = []
  for mi, model in enumerate(models):
    params = jax.tree_util.tree_map(jnp.asarray, model.params)
    state = rep(st0)
    if set(shp) - set(st0):   # keys that appear only after the first step
      pass
    x = jnp.asarray(core.rng_of('x0', case['xseed'], mi).integers(
        0, case['C'], size=(g, b) + tuple(case['shape'])).astype(np.int32))
    for t in range(case['warmup']):
      x, state = stepv(x, jax.random.split(
          samp.key_of('warm', mi, t, case['xseed']), g), state, params)
      x = x.astype(jnp.int32)
    for k, leaf in dict(state).items():
      core.require(bool(np.all(np.isfinite(np.asarray(leaf)))),
                   'sampler state %r became non-finite within %d steps', k,
                   case['warmup'])

    def step_groups(x, key):
      return stepv(jnp.asarray(x), jax.random.split(key, g), state, params)[0]

    moved.append(run(case, model, step_groups, tag0='m%d' % mi,
                     what='%s %s' % (case['sampler'], case.get('opts'))))
  kind = 'bin' if case['C'] == 2 else 'cat'
  return ('%s-%s' % (case['sampler'], kind),
          min(moved) > 0.001 and case['shape'] != [1])


def case_strategy(names, co_opt=False, warm=None, cats=(2, 2, 3, 4, 5)):
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    name = draw(st.sampled_from(names))
    C = draw(st.sampled_from(cats))
    dmax = {2: 6, 3: 3, 4: 3, 5: 2}[C]
    d = draw(st.sampled_from([3, 2] + [k for k in range(1, dmax + 1)
                                       if k not in (2, 3)])
             if dmax > 2 else st.sampled_from([2, 1]))
    shapes = [[d]]
    if d in (4, 6):
      shapes.append([2, d // 2])
    shape = draw(st.sampled_from(shapes))
    opts = draw(samp.opts_strategy(name, C, d, st))
    case = dict(sampler=name, C=C, shape=shape, opts=opts,
                scales=draw(st.lists(st.sampled_from([1.0, 0.4, 1.5, 0.7]),
                                     min_size=2, max_size=2)),
                B=draw(st.sampled_from([2, 1, 3, 4])),
                warmup=draw(st.sampled_from(warm or [1, 2, 3, 5, 12, 30])),
                mseed=draw(st.integers(0, 10**6)),
                xseed=draw(st.integers(0, 10**6)))
    if co_opt:
      case['co_opt'] = True
      case['B'] = 1
      case['opts']['adaptive'] = True
    return case

  return strat()


# ------------------------------------------------- spaces too big to enumerate
class PairModel:
  """Coordinates coupled in pairs: exact draws however many there are.

  Every pair has an arbitrary table of energies; b*z*(1-z) terms vanish on
  samples but make the gradient a rough guide only.
  """

  def __init__(self, shape, C, seed, scale, rough):
    self.shape, self.C = tuple(shape), C
    self.dim = d = int(np.prod(shape))
    r = core.rng_of('pairmodel', list(shape), C, seed)
    perm = r.permutation(d)
    self.a = perm[0:d - 1:2]
    self.b = perm[1:d:2]
    self.left = perm[2 * (d // 2):]          # one coordinate, or none
    f = lambda *s: (scale * r.normal(size=s)).astype(np.float32)
    self.params = dict(t=f(len(self.a), C, C), h=f(len(self.left), C),
                       g=(rough * r.normal(size=d)).astype(np.float32))

  def onehot(self, x):
    import jax
    import jax.numpy as jnp
    x = jnp.asarray(x)
    n = len(self.shape)
    if self.C == 2:
      z = x.reshape(x.shape[0], self.dim).astype(jnp.float32)
      return jnp.stack([1 - z, z], -1)
    if x.ndim == n + 1:
      x = jax.nn.one_hot(x.astype(jnp.int32), self.C)
    return x.reshape(x.shape[0], self.dim, self.C).astype(jnp.float32)

  def forward(self, params, x):
    import jax.numpy as jnp
    z = self.onehot(x)
    za, zb = z[:, self.a], z[:, self.b]
    ll = jnp.sum((za[..., :, None] * params['t'][None]) * zb[..., None, :],
                 (-1, -2, -3))
    ll = ll + jnp.sum(z[:, self.left] * params['h'], (-1, -2))
    return ll + jnp.sum(params['g'] * z[..., 1] * (1 - z[..., 1]), -1)

  get_value_and_grad = samp.RefModel.get_value_and_grad

  def draw(self, r, n):
    """n exact draws, flat."""
    x = np.zeros((n, self.dim), np.int32)
    t = np.asarray(self.params['t'], np.float64)
    for k in range(len(self.a)):
      w = np.exp(t[k] - t[k].max()).reshape(-1)
      j = r.choice(self.C * self.C, size=n, p=w / w.sum())
      x[:, self.a[k]], x[:, self.b[k]] = j // self.C, j % self.C
    for k, i in enumerate(self.left):
      w = np.exp(np.asarray(self.params['h'][k], np.float64))
      x[:, i] = r.choice(self.C, size=n, p=w / w.sum())
    return x

  def features(self, x):
    """n x F functionals of flat samples."""
    t = np.asarray(self.params['t'], np.float64)
    e = t[np.arange(len(self.a)), x[:, self.a], x[:, self.b]].sum(1)
    if len(self.left):
      e = e + np.asarray(self.params['h'], np.float64)[0][x[:, self.left[0]]]
    w = np.exp(t - t.max((1, 2), keepdims=True))
    mean = (w * t).sum() if not len(t) else sum(
        (w[k] * t[k]).sum() / w[k].sum() for k in range(len(t)))
    e = e - mean
    ones = (x == 1).sum(1) - self.dim / self.C
    cols = [e[:, None], np.clip(e * e, 0, 400)[:, None],
            (ones * ones)[:, None], (x.sum(1) % 2)[:, None]]
    for c in range(1, min(self.C, 6)):
      cols.append((x == c).astype(np.float32))
    cols.append((x[:, self.a] == x[:, self.b]).astype(np.float32))
    cols.append((x[:, 1:] == x[:, :-1]).astype(np.float32)[:, :40])
    return np.concatenate(cols, 1).astype(np.float32)


def big_case(case):
  """Stationarity on samples of many coordinates or values."""
  import jax
  import jax.numpy as jnp
  sampler = samp.build_sampler(case)
  model = PairModel(case['shape'], case['C'], case['mseed'], case['scale'],
                    case['rough'])
  b, shape = case['B'], tuple(case['shape'])
  rows = int(np.clip((1 << 20) // (model.dim * case['C']), 1024, 1 << 13))
  g = max(1, rows // b)
  params = jax.tree_util.tree_map(jnp.asarray, model.params)

  def one(x, key, st):
    nx, st2, _ = sampler.step(model=model, rng=key, x=x, model_param=params,
                              state=dict(st))
    return nx, st2

  stepv = jax.jit(jax.vmap(one))
  st0 = dict(sampler.make_init_state(samp.key_of('init', case['xseed'])))
  shp = jax.eval_shape(one, jnp.zeros((b,) + shape, jnp.int32),
                       jax.random.PRNGKey(0), st0)[1]
  state = {k: jnp.broadcast_to(jnp.asarray(v).astype(shp[k].dtype),
                               (g,) + jnp.shape(v)) for k, v in st0.items()}
  r = core.rng_of('w', case['xseed'])
  x = jnp.asarray(model.draw(r, g * b).reshape((g, b) + shape))
  for t in range(case['warmup']):
    x, state = stepv(x, jax.random.split(
        samp.key_of('warm', t, case['xseed']), g), state)
    x = x.astype(jnp.int32)
  moved = []

  def chunk(tag):
    x = model.draw(core.rng_of('pi', tag, case['xseed']), g * b)
    y = np.asarray(stepv(jnp.asarray(x.reshape((g, b) + shape)),
                         jax.random.split(samp.key_of(tag, case['xseed']), g),
                         state)[0])
    core.require(y.shape == (g, b) + shape, 'step changed the batch shape to '
                 '%s', y.shape)
    y = y.reshape(g * b, -1).astype(np.int64)
    core.require(((y >= 0) & (y < case['C'])).all(), 'step left the sample '
                 'space')
    moved.append(float((y != x).any(1).mean()))
    return (model.features(y) - model.features(x)).reshape(g, b, -1).sum(1)

  acc = _Acc()
  for i in range(case.get('screen', 8)):
    acc.add(chunk('s1-%d' % i))
  z1 = np.abs(acc.z()).max()
  if z1 > 4.7:
    acc = _Acc()
    for i in range(16 * case.get('screen', 8)):
      acc.add(chunk('s2-%d' % i))
      if i == 2 * case.get('screen', 8) and np.abs(acc.z()).max() < 4:
        break
    z = acc.z()
    f = int(np.abs(z).argmax())
    core.require(abs(z[f]) < 7.5, 'one step of %s %s on %d coordinates does '
                 'not leave the target distribution invariant: functional #%d '
                 'drifts by %.4g per chain per step (z=%.1f over %d chains)',
                 case['sampler'], case['opts'], model.dim, f,
                 acc.s[f] / acc.n / b, z[f], acc.n * b)
  return ('%s-%d' % (case['sampler'], case['C']),
          float(np.mean(moved)) > 0.003)


def big_strategy(names, sizes=((2, 24), (2, 61), (3, 16), (6, 9), (12, 4),
                               (30, 2))):
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    name = draw(st.sampled_from(names))
    C, d = draw(st.sampled_from(sizes))
    opts = draw(samp.opts_strategy(name, C, min(d, 12), st))
    if name in ('blockgibbs', 'hammingball'):
      hi = 1
      while hi < 6 and hi < d and (C ** (hi + 1) if name == 'blockgibbs' else
                                   (C - 1) * (hi + 1)) <= 48:
        hi += 1
      opts['block_size'] = draw(st.integers(1, hi))
    if name in ('gwg', 'path_auxiliary'):
      opts['num_flips'] = draw(st.sampled_from([k for k in (1, 3, 2, 6)
                                                if k <= d]))
    shapes = [[d]] + [[r, d // r] for r in (2, 3) if d % r == 0 and d > r]
    return dict(sampler=name, C=C, shape=draw(st.sampled_from(shapes)),
                opts=opts, scale=draw(st.sampled_from([0.7, 0.3, 1.5])),
                rough=draw(st.sampled_from([0.0, 0.5, 2.0])),
                B=draw(st.sampled_from([4, 1, 2, 16])),
                warmup=draw(st.sampled_from([2, 1, 5, 20, 60])),
                mseed=draw(st.integers(0, 10**6)),
                xseed=draw(st.integers(0, 10**6)))

  return strat()
