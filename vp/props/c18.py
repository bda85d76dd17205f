"""C18: trained models are restored exactly from their saved files."""
import importlib
import os
import pickle
import shutil
import tempfile

import numpy as np

from vp import core, mods
from vp.props.c11 import _close

WARM = mods.warm


def _save(d, case, params, mean, extra):
  """Writes params.pkl / config.yaml the way the training scripts do."""
  from ml_collections import config_dict
  c = case['cfg']
  res = {'params': dict(params)}
  res['params']['data_mean'] = mean
  for k in ('num_visible', 'num_hidden', 'num_categories'):
    if k in c:
      res[k] = c[k]
  with open(os.path.join(d, 'params.pkl'), 'wb') as f:
    pickle.dump(res, f, case['proto'])
  m = {k: (tuple(v) if isinstance(v, list) else v) for k, v in c.items()
       if k != 'data_path'}
  m['name'] = case['model']
  if not case.get('conv'):  # a converted checkpoint has it only with the weights
    m['data_mean'] = mean
  m.update(extra)
  cfg = config_dict.ConfigDict(dict(
      model=m, sampler=dict(name='blockgibbs'),
      experiment=dict(save_root=d, rbm_config='x')))
  with open(os.path.join(d, 'config.yaml'), 'w') as f:
    f.write(cfg.to_yaml())


def check(case):
  import jax
  import jax.numpy as jnp
  from ml_collections import config_dict
  name, C = case['model'], mods.n_categories(case)
  shape = case['cfg']['shape']
  model0, params = mods.build(dict(case, pmode='random'))
  params = {k: jax.tree_util.tree_map(np.asarray, v)
            for k, v in dict(params).items()}
  r = core.rng_of('mean', case['seed'])
  nv = shape[0]
  if case['with_mean']:
    mean = (r.uniform(0.05, 0.95, size=nv).tolist() if C == 2 else
            (r.dirichlet(np.ones(C), size=nv) * .9 + .1 / C).tolist())
  else:
    mean = None
  d = tempfile.mkdtemp(prefix='ebm-', dir=os.environ.get('VP_SCRATCH', '/tmp'))
  try:
    _save(d, case, params, mean, {})
    base = importlib.import_module('discs.models.configs.%s_config' % name)
    m = base.get_config().to_dict()
    m.update(data_path=d, num_categories=C)
    # stale defaults that the saved configuration must override
    if case['stale']:
      m.update(shape=(3, 3), num_visible=77, num_hidden=5, n_channels=1,
               image_shape=(9, 9))
      if mean is not None:
        m.update(data_mean=np.full(np.shape(mean), 1 / C).tolist())
    mod = importlib.import_module('discs.models.%s' % name)
    cfg = config_dict.ConfigDict(dict(model=m))
    model = mod.build_model(cfg)
    for k in ('shape', 'num_visible', 'num_hidden', 'image_shape',
              'n_channels', 'num_categories'):
      if k in case['cfg']:
        v = case['cfg'][k]
        want = tuple(v) if isinstance(v, list) else v
        core.require(cfg.model[k] == want, 'configuration field %r is %r after '
                     'loading, saved was %r', k, cfg.model[k], want)
    core.require(tuple(model.shape) == tuple(shape), 'the restored model has '
                 'shape %s, saved was %s', tuple(model.shape), tuple(shape))
    got = model.make_init_params(mods.key('k', case['seed']))
    for k, v in params.items():
      core.require(k in got, 'parameter %r is lost', k)
      a = jax.tree_util.tree_leaves(got[k])
      b = jax.tree_util.tree_leaves(v)
      core.require(len(a) == len(b) and all(
          np.array_equal(np.asarray(p), q) for p, q in zip(a, b)),
                   'parameter %r differs from the saved one', k)
    x = mods.samples(case, case['B'])
    ll = np.asarray(model.forward(got, jnp.asarray(x)), np.float64)
    if name == 'rbm':
      want, mag = mods.oracle(case, params, x)
    else:
      want = np.asarray(model0.forward(
          jax.tree_util.tree_map(jnp.asarray, params), jnp.asarray(x)),
                        np.float64)
      mag = np.abs(want) + 1
      if mean is not None:
        t = np.where(x > 0, np.log(np.asarray(mean)),
                     np.log1p(-np.asarray(mean)))
        want, mag = want + t.sum(1), mag + np.abs(t).sum(1)
    _close(ll, want, mag, 'restored %s' % name)
    n = 6000
    xs = np.asarray(model.get_init_samples(mods.key('i', case['seed']), n))
    core.require(xs.shape == (n,) + tuple(shape), 'restored model starts with '
                 'samples of shape %s', xs.shape)
    if mean is None:
      pr = np.full((nv, C), 1 / C)
    elif C == 2:
      pr = np.stack([1 - np.asarray(mean), np.asarray(mean)], 1)
    else:
      pr = np.asarray(mean)
    fr = (xs[..., None] == np.arange(C)).mean(0)
    z = np.abs(fr - pr) / np.sqrt(pr * (1 - pr) / n)
    core.require(z.max() < 8, 'starting samples of the restored model do not '
                 'follow the saved data mean (z=%.1f)', z.max())
    # a missing directory is reported
    cfg2 = config_dict.ConfigDict(dict(model=dict(
        m, data_path=os.path.join(d, 'missing'))))
    err = None
    try:
      mod.build_model(cfg2)
    except Exception as e:  # pylint: disable=broad-except
      err = e
    core.require(err is not None, 'a missing model directory goes unnoticed')
  finally:
    shutil.rmtree(d, ignore_errors=True)
  return '%s-C%d%s' % (name, C, '-mean' if mean else ''), nv > 1


def _mk(n):
  def f():
    from hypothesis import strategies as st
    return st.builds(
        lambda c, w, s, p, v: dict(c, with_mean=w, stale=s, proto=p,
                                   conv=v and n == 'resnet'),
        mods.draw((n,)), st.sampled_from([True, True, False]), st.booleans(),
        st.sampled_from([2, 4, 5]), st.booleans())
  return f


STRATA = [core.Stratum('rbm', _mk('rbm'), check, 64, 1500),
          core.Stratum('resnet', _mk('resnet'), check, 12, 300)]
RULE = ('A case is an RBM or image EBM with generated sizes, parameters, with '
        'or without a data mean, saved as the training scripts save it '
        '(several pickle protocols) and loaded over default or stale '
        'configuration values. Non-trivial: more than one visible unit.')
ASSUMPTIONS = ['The saved configuration is one ConfigDict.to_yaml wrote, as in '
               'the training scripts.']
