"""Classical / deep models of the repository and float64 oracles for them.

`draw(names)` gives JSON cases; `build(case)` the real model and its parameter
pytree (leaf values replaced by generated ones when case['pmode']=='random');
`oracle(case, params, x)` the log-likelihood from the written definition.
"""
import importlib
import itertools

import numpy as np

from vp import core

CLASSIC = ('bernoulli', 'categorical', 'ising', 'potts', 'fhmm')


def warm():
  import jax  # noqa: F401
  import jax.numpy  # noqa: F401
  import ml_collections  # noqa: F401
  for n in CLASSIC + ('rbm', 'resnet'):
    importlib.import_module('discs.models.%s' % n)


def config(case):
  from ml_collections import config_dict
  name = case['model']
  base = importlib.import_module('discs.models.configs.%s_config' % name)
  m = base.get_config().to_dict()
  for k, v in case['cfg'].items():
    m[k] = tuple(v) if isinstance(v, list) else v
  return config_dict.ConfigDict(dict(model=m))


def make(case):
  mod = importlib.import_module('discs.models.%s' % case['model'])
  return mod.build_model(config(case))


def key(*parts):
  import jax
  return jax.random.PRNGKey(core.int_hash(*parts))


def build(case):
  """(model, params): real model, parameters from its own initialiser."""
  import jax
  model = make(case)
  params = model.make_init_params(key('params', case['seed']))
  if case.get('pmode') == 'random':
    r = core.rng_of('leaf', case['seed'])
    scale = case.get('pscale', 1.0)
    leaves, tree = jax.tree_util.tree_flatten(params)
    leaves = [np.asarray(r.normal(size=np.shape(v)) * scale, np.float32)
              for v in leaves]
    params = jax.tree_util.tree_unflatten(tree, leaves)
    if case['model'] == 'fhmm' and 'alpha' in params:
      a = params['alpha']
      params['alpha'] = (a - np.log(np.exp(a).sum())).astype(np.float32)
  return model, params


def samples(case, n, tag='x'):
  r = core.rng_of(tag, case['seed'])
  C = case['cfg']['num_categories']
  return r.integers(0, C, size=(n,) + tuple(case['cfg']['shape'])).astype(
      np.int32)


def n_categories(case):
  return case['cfg']['num_categories']


def one_hot(x, C):
  return np.eye(C, dtype=np.float32)[x]


def f64(tree):
  import jax
  return jax.tree_util.tree_map(lambda v: np.asarray(v, np.float64), tree)


# ------------------------------------------------------------------ oracles
def oracle(case, params, x):
  """Row-by-row value plus the sum of absolute terms (for the tolerance)."""
  p = f64(params)
  fn = {'bernoulli': _bernoulli, 'categorical': _categorical, 'ising': _ising,
        'potts': _potts, 'fhmm': _fhmm, 'rbm': _rbm}[case['model']]
  out = [fn(case, p, row) for row in x]
  return np.array([o[0] for o in out]), np.array([o[1] for o in out])


def _total(terms):
  t = np.asarray(list(terms), np.float64)
  return t.sum(), np.abs(t).sum() + 1.0


def _bernoulli(case, p, x):
  return _total((p['params'] * x).ravel())


def _categorical(case, p, x):
  th = p['params']
  return _total(th[idx + (x[idx],)] for idx in np.ndindex(x.shape))


def _ising(case, p, x):
  w_h, w_v, b = p['params']
  s = 2 * x - 1
  n, m = x.shape
  t = [-b[i, j] * s[i, j] for i in range(n) for j in range(m)]
  t += [-w_h[i, j] * s[i, j] * s[i, j + 1]
        for i in range(n) for j in range(m - 1)]
  t += [-w_v[i, j] * s[i, j] * s[i + 1, j]
        for i in range(n - 1) for j in range(m)]
  return _total(t)


def _potts(case, p, x):
  w_h, w_v, b = p['params']
  n, m = x.shape
  t = [-b[i, j, x[i, j]] for i in range(n) for j in range(m)]
  t += [-w_h[i, j, x[i, j]] for i in range(n) for j in range(m - 1)
        if x[i, j] == x[i, j + 1]]
  t += [-w_v[i, j, x[i, j]] for i in range(n - 1) for j in range(m)
        if x[i, j] == x[i + 1, j]]
  return _total(t)


def _fhmm(case, p, x):
  c = case['cfg']
  C = c['num_categories']
  l, k = c['shape']
  y = p['y'].reshape(-1)
  b = float(p['b'].reshape(()))
  t = []
  for i in range(l):
    if C == 2:
      mean = sum(p['w'][j, 0] * x[i, j] for j in range(k)) + b
    else:
      mean = sum(p['w'][j, x[i, j]] for j in range(k)) + b
    t.append(-(y[i] - mean) ** 2 / (2 * c['sigma'] ** 2))
  for j in range(k):
    if C == 2:
      t.append(np.log(c['alpha'] if x[0, j] else 1 - c['alpha']))
    else:
      t.append(p['alpha'][x[0, j]])
    for i in range(1, l):
      same = x[i, j] == x[i - 1, j]
      t.append(np.log(c['beta'] if same else (1 - c['beta']) / (C - 1)))
  return _total(t)


def rbm_joint(case, p, v, h):
  """log weight of (visible, hidden)."""
  if n_categories(case) == 2:
    return v @ p['w'] @ h + v @ p['b_v'] + h @ p['b_h']
  idx = np.arange(len(v))
  return (h @ p['w'][:, idx, v].sum(1) + p['b_v'][idx, v].sum() + h @ p['b_h'])


def _rbm(case, p, v):
  nh = case['cfg']['num_hidden']
  if nh > 8:             # hidden units are independent given the visible ones
    z = np.zeros(nh)
    base = rbm_joint(case, p, v, z)
    pre = np.array([rbm_joint(case, p, v, e) for e in np.eye(nh)]) - base
    t = np.logaddexp(0.0, pre)
    return base + t.sum(), np.abs(base) + t.sum() + np.abs(pre).sum() + 1.0
  es = np.array([rbm_joint(case, p, v, np.array(h, float))
                 for h in itertools.product((0, 1), repeat=nh)])
  m = es.max()
  return m + np.log(np.exp(es - m).sum()), np.abs(es).max() + 1.0


# ------------------------------------------------------------------ cases
def draw(names, **kw):
  from hypothesis import strategies as st

  @st.composite
  def strat(draw_):
    name = draw_(st.sampled_from(list(names)))
    cfg = {}
    if name in ('bernoulli', 'categorical'):
      nd = draw_(st.sampled_from([1, 1, 2, 3]))
      cfg['shape'] = [draw_(st.integers(1, {1: 12, 2: 4, 3: 3}[nd]))
                      for _ in range(nd)]
      cfg['init_sigma'] = draw_(st.sampled_from([0.5, 1.5, 0.0, 4.0]))
    elif name in ('ising', 'potts'):
      cfg['shape'] = [draw_(st.integers(1, 5)), draw_(st.integers(1, 5))]
      cfg['lambdaa'] = draw_(st.sampled_from([0.5, 1.0, 0.1607, -0.7, 3.0]))
      cfg['init_sigma'] = draw_(st.sampled_from([1.5, 0.0, 3.0]))
      cfg['mu'] = draw_(st.sampled_from([0.5, 0.0, 2.0]))
    elif name == 'fhmm':
      cfg['shape'] = [draw_(st.integers(1, 6)), draw_(st.integers(1, 4))]
      cfg['sigma'] = draw_(st.sampled_from([2, 0.5, 1.0]))
      cfg['alpha'] = draw_(st.sampled_from([0.1, 0.5, 0.8]))
      cfg['beta'] = draw_(st.sampled_from([0.8, 0.95, 0.3]))
    elif name == 'rbm':
      nv = draw_(st.integers(1, 8))
      cfg.update(shape=[nv], num_visible=nv, num_hidden=draw_(
          st.integers(1, 6)), data_path='')
    elif name == 'resnet':
      a, b = draw_(st.sampled_from([(3, 4), (4, 4), (5, 2), (6, 5)]))
      cfg.update(shape=[a * b], image_shape=[a, b],
                 n_channels=draw_(st.sampled_from([2, 4])), data_path='')
    if name in ('bernoulli', 'ising', 'resnet'):
      cfg['num_categories'] = 2
    elif name in ('categorical', 'potts'):
      cfg['num_categories'] = draw_(st.integers(3, 6))
    else:
      cfg['num_categories'] = draw_(st.sampled_from([2, 3, 2, 4, 5]))
    if kw.get('big'):
      if name in ('bernoulli', 'categorical'):
        cfg['shape'] = draw_(st.sampled_from(
            [[100], [257], [10, 13], [3, 7, 9], [129]]))
      elif name in ('ising', 'potts'):
        cfg['shape'] = draw_(st.sampled_from(
            [[10, 13], [1, 40], [33, 2], [16, 16], [12, 12]]))
      elif name == 'fhmm':
        cfg['shape'] = draw_(st.sampled_from([[60, 3], [9, 17], [130, 1],
                                              [20, 20]]))
      elif name == 'rbm':
        nv = draw_(st.sampled_from([100, 65, 130]))
        cfg.update(shape=[nv], num_visible=nv,
                   num_hidden=draw_(st.sampled_from([40, 129, 65])))
      elif name == 'resnet':
        a, b = draw_(st.sampled_from([(28, 28), (13, 17)]))
        cfg.update(shape=[a * b], image_shape=[a, b])
      if cfg['num_categories'] > 2:
        cfg['num_categories'] = draw_(st.sampled_from([3, 11, 40]))
    for k, v in kw.get('cfg', {}).items():
      cfg[k] = v
    case = dict(model=name, cfg=cfg,
                pmode=draw_(st.sampled_from(kw.get('pmodes',
                                                   ['random', 'init']))),
                pscale=draw_(st.sampled_from(kw.get('pscales',
                                                    [1.0, 0.2, 5.0]))),
                B=draw_(st.sampled_from([9, 17, 40]) if kw.get('big') else
                        st.integers(1, 6)), seed=draw_(st.integers(0, 10**6)))
    return case

  return strat()
