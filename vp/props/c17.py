"""C17: neighbourhood log-ratios equal the energy change of each move."""
import itertools

import numpy as np

from vp import core, comb, mods, samp, stationary


def WARM():
  samp.warm()
  comb.warm()
  mods.warm()


def _compare(name, model, params, x, K, n_real, scale):
  """Every entry against the difference of real log-likelihoods."""
  import jax
  import jax.numpy as jnp
  fwd = jax.jit(model.forward)
  b = x.shape[0]
  shape = x.shape[1:]

  def query(p, z):
    full = model.logratio_in_neighborhood(p, z)
    core.require(len(full) == 4, '%s: the samplers expect four results, got '
                 '%d', name, len(full))
    return full[:2]

  out = jax.jit(query)(params, jnp.asarray(x))
  cur = np.asarray(fwd(params, jnp.asarray(x)), np.float64)
  core.require(np.shape(out[0]) == cur.shape, '%s: current value has shape %s',
               name, np.shape(out[0]))
  tol = 3e-5 * (np.abs(cur) + scale)
  core.require((np.abs(np.asarray(out[0]) - cur) <= tol).all(),
               '%s: the returned current value %s is not the log-likelihood '
               '%s', name, np.asarray(out[0]).tolist()[:3], cur.tolist()[:3])
  ratio = np.asarray(out[1], np.float64)
  want_shape = x.shape if K == 2 and name != 'normcut' else x.shape + (K,)
  core.require(ratio.shape == want_shape, '%s: log-ratios have shape %s, '
               'expected %s', name, ratio.shape, want_shape)
  flat = x.reshape(b, -1)
  d = flat.shape[1]
  rows, where = [], []
  for i in range(d):
    if K == 2 and name != 'normcut':
      y = flat.copy()
      y[:, i] = 1 - y[:, i]
      rows.append(y)
      where.append((i, None))
    else:
      for c in range(K):
        y = flat.copy()
        y[:, i] = c
        rows.append(y)
        where.append((i, c))
  ll = np.asarray(fwd(params, jnp.asarray(
      np.concatenate(rows).reshape((-1,) + shape)))).reshape(len(rows), b)
  rf = ratio.reshape((b, d) + ratio.shape[1 + len(shape):])
  for (i, c), v in zip(where, ll.astype(np.float64)):
    got = rf[:, i] if c is None else rf[:, i, c]
    if i >= n_real:
      # a padding node: neutral, or excluded from the neighbourhood
      ok = (np.abs(got) <= tol) | (got <= -1e6)
      core.require(ok.all(), '%s: flipping padding node %d is given log-ratio '
                   '%.5g', name, i, got[~ok][0] if (~ok).any() else 0)
      continue
    t = 3e-5 * (np.abs(cur) + np.abs(v) + scale)
    bad = ~(np.abs(got - (v - cur)) <= t)
    if bad.any():
      j = int(np.argmax(bad))
      raise core.Violation(
          '%s: moving coordinate %d%s of %s has log-ratio %.6g, the '
          'log-likelihood changes by %.6g' %
          (name, i, '' if c is None else ' to %d' % c, flat[j].tolist(),
           got[j], v[j] - cur[j]))


def _neighbor(name, model, params, x, seed):
  """The move handed out with the ratios makes exactly the named change."""
  import jax.numpy as jnp
  move = model.logratio_in_neighborhood(params, jnp.asarray(x))[3]
  if move is None:
    return
  b, flat = x.shape[0], x.reshape(x.shape[0], -1)
  r = core.rng_of('move', seed)
  for t in range(3):
    i = r.integers(0, flat.shape[1], size=b)
    want = flat.copy()
    want[np.arange(b), i] = 1 - want[np.arange(b), i]
    got = np.asarray(move(params, jnp.asarray(x), jnp.asarray(i)))
    core.require(got.shape == x.shape, '%s: the neighbour has shape %s instead '
                 'of %s', name, got.shape, x.shape)
    core.require((got.reshape(b, -1) == want).all(), '%s: the neighbour of %s '
                 'at coordinates %s is %s', name, flat.tolist(), i.tolist(),
                 got.tolist())


def check_comb(case):
  import jax.numpy as jnp
  with comb.Dataset(case) as ds:
    model, cfg = ds.model()
    insts = [(i, p) for i, p, _ in ds.instances(model) if i >= 0]
    core.require(len(insts) == len(ds.expected), 'instances are missing')
    total, K = cfg.model.max_num_nodes, cfg.model.num_categories
    r = core.rng_of('x', case['seed'])
    for i, params in insts[:2]:
      n, edges, _ = ds.expected[i]
      x = r.integers(0, K, size=(6, total)).astype(np.int32)
      temp = case['temp']
      p = dict(params, temperature=jnp.float32(temp))
      if ds.model_name == 'normcut' and case['penalty'] == 0:
        # an empty group costs eps/eps^2: keep every group inhabited
        x[:, :min(2 * K, total)] = np.arange(min(2 * K, total)) % K
        if total < 2 * K:
          continue
      w = sum(abs(v) for v in edges.values()) + n
      if ds.model_name == 'normcut':
        w = w + (case['penalty'] * total ** 2 if case['penalty'] else 0)
      _compare(ds.model_name, model, p, x, K,
               n if ds.model_name != 'normcut' else total, (w + 1) / temp)
      if ds.model_name != 'normcut':
        _neighbor(ds.model_name, model, p, x, case['seed'])
    return ds.kind, any(e[1] for e in ds.expected)


def check_bernoulli(case):
  import jax
  import jax.numpy as jnp
  model, params = mods.build(case)
  jp = jax.tree_util.tree_map(jnp.asarray, params)
  x = mods.samples(case, case['B'])
  _compare('bernoulli', model, jp, x, 2, x[0].size,
           float(np.abs(params['params']).sum()) + 1)
  _neighbor('bernoulli', model, jp, x, case['seed'])
  return 'bernoulli', x[0].size > 1


class _Enum:

  def __init__(self, states, ll, C):
    self.C = C
    self.dim = states.shape[1]
    self._s, self._ll = states, ll

  def states(self):
    return self._s

  def pi(self):
    w = np.exp(self._ll - self._ll.max())
    return w / w.sum()

  def index_of(self, flat):
    return (flat @ (self.C ** np.arange(self.dim)[::-1])).astype(np.int64)


def check_sampler(case):
  """PAS driven by exact log-ratios leaves the model's law invariant."""
  import jax
  import jax.numpy as jnp
  with comb.Dataset(case) as ds:
    model, cfg = ds.model()
    insts = [(i, p) for i, p, _ in ds.instances(model) if i >= 0]
  i, params = insts[0]
  total, K = cfg.model.max_num_nodes, cfg.model.num_categories
  params = dict(params, temperature=jnp.float32(case['temp']))
  states = np.array(list(itertools.product(range(K), repeat=total)), np.int32)
  if len(states) > 128:
    return 'too-large', False
  ll = np.array([comb.objective(ds, ds.expected[i], s, total)
                 for s in states]) / case['temp']
  scase = dict(sampler='path_auxiliary', C=K, shape=[total],
               opts=dict(case['opts'], approx_with_grad=False))
  scase['opts']['num_flips'] = min(scase['opts']['num_flips'], total)
  sampler = samp.build_sampler(scase)
  B = case['B']
  g = max(1, stationary.CHUNK // B)

  def one(x, k, st):
    nx, st2, _ = sampler.step(model=model, rng=k, x=x, model_param=params,
                              state=st)
    return nx, st2

  stepv = jax.jit(jax.vmap(one))
  st0 = sampler.make_init_state(mods.key('st', case['seed']))
  shp = jax.eval_shape(one, jnp.zeros((B, total), jnp.int32),
                       jax.random.PRNGKey(0), st0)[1]
  st = {k: jnp.broadcast_to(jnp.asarray(v).astype(shp[k].dtype),
                            (g,) + jnp.shape(v)) for k, v in st0.items()}
  x = jnp.asarray(core.rng_of('x0', case['seed']).integers(
      0, K, size=(g, B, total)).astype(np.int32))
  for t in range(case['warmup']):
    x, st = stepv(x, jax.random.split(mods.key('w', t, case['seed']), g), st)
    x = x.astype(jnp.int32)
  moved = stationary.run(
      dict(B=B, shape=[total], xseed=case['seed']), _Enum(states, ll, K),
      lambda z, k: stepv(jnp.asarray(z), jax.random.split(k, g), st)[0],
      what='PAS with exact log-ratios on %s' % ds.kind)
  return ds.kind, moved > 0.001


def _mk(kinds, **kw):
  def f():
    from hypothesis import strategies as st
    return st.builds(lambda c, t: dict(c, temp=t),
                     comb.draw_dataset(kinds, **kw),
                     st.sampled_from([1.0, 0.3, 5.0]))
  return f


def samp_strategy():
  from hypothesis import strategies as st

  def fix(c, opts, temp, warm, B):
    c = dict(c, opts=opts, temp=temp, warmup=warm, B=B, slack=None)
    c['graphs'] = c['graphs'][:1]
    if 'penalty' in c and c['kind'] in ('nets', 'gap_rand'):
      c['penalty'] = 0.5 if c['penalty'] == 0.0 else c['penalty']
      if c['K'] == 2:       # the binary samplers have no use for 2 groups
        c['K'] = 3
        g = c['graphs'][0]
        while g['n'] < 3:
          g['order'].append(g['n'])
          g['n'] += 1
    return c

  return st.builds(
      fix, comb.draw_dataset(('ba', 'ertest', 'nets', 'er'),
                             n_hi=5, g_hi=1),
      samp.opts_strategy('path_auxiliary', 2, 3, st),
      st.sampled_from([1.0, 2.0]), st.sampled_from([1, 2, 5, 12]),
      st.sampled_from([2, 1, 4]))


STRATA = [
    core.Stratum('bernoulli', lambda: mods.draw(('bernoulli',)),
                 check_bernoulli, 32, 800),
    core.Stratum('maxcut', _mk(('ba', 'er', 'optsicom')), check_comb, 40, 1000),
    core.Stratum('mis', _mk(('ertest', 'er_density', 'satlib')), check_comb,
                 40, 1000),
    core.Stratum('normcut', _mk(('nets', 'gap_rand'), n_hi=9), check_comb, 40,
                 1000),
    core.Stratum('large', lambda: mods.draw(('bernoulli',), big=True),
                 check_bernoulli, 16, 200),
    core.Stratum('large-graphs', _mk(('ba', 'er', 'optsicom', 'ertest',
                                      'er_density', 'satlib', 'nets',
                                      'gap_rand'), n_lo=25, n_hi=60, g_hi=2,
                                     nv=(8, 12), clauses=20), check_comb, 32,
                 400),
    core.Stratum('sampler', samp_strategy, check_sampler, 16, 300),
]
RULE = ('A case is a Bernoulli model or a dataset of generated graphs (padded '
        'and unpadded) with a temperature and random samples; each entry of '
        'the log-ratios is compared with the difference of the model\'s own '
        'log-likelihoods, and the move function returned with them must flip '
        'exactly the chosen coordinate of each sample. sampler: PAS with exact ratios from exact draws, as '
        'in C02. Non-trivial: more than one coordinate / some edge / chains '
        'moved.')
ASSUMPTIONS = ['Moves of padding nodes must be neutral or excluded (log-ratio '
               'below -1e6).']
