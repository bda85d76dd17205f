"""C25: annealed importance sampling estimates the log-partition ratio."""
import itertools

import numpy as np

from vp import core, exper, mods, samp

WARM = exper.warm


def _lse(v):
  m = v.max()
  return m + np.log(np.exp(v - m).sum())


def judge(case, run, net, exact):
  """Saved estimates against the observed history and the exact ratio."""
  T, B, D = case['T'], case['B'], max(1, case['devices'])
  core.require('logz' in run.logz, 'the saved file has keys %s',
               sorted(run.logz))
  logz = np.asarray(run.logz['logz'], np.float64)
  core.require(logz.shape == (T,), 'logz has shape %s for %d annealing steps',
               logz.shape, T)
  by = {}
  for i, n, t, _, x, y, _, _ in run.events:
    by.setdefault(n, []).append((i, t, x.reshape(-1, run.dim),
                                 y.reshape(-1, run.dim)))
  core.require(set(by) == set(range(1, T + 1)), 'steps %s were made, %d '
               'annealing steps are configured', sorted(by), T)
  for n, ev in by.items():
    core.require(len(ev) == D, 'step %d ran %d times on %d devices', n, len(ev),
                 D)
    ev.sort(key=lambda e: e[0])
    for _, t, _, _ in ev:
      core.require(abs(t - n / T) < 1e-5, 'step %d of %d samples at inverse '
                   'temperature %r', n, T, t)
  core.require(len({e[0] for e in by[1]}) == D, 'two devices step with the same '
               'key')
  exper.fresh(run.keys)
  w = np.zeros(B)
  prev = None
  for n in range(1, T + 1):
    x = np.concatenate([e[2] for e in by[n]])
    core.require(x.shape == (B, run.dim), 'step %d has samples of shape %s', n,
                 x.shape)
    if prev is not None:
      core.require(np.array_equal(prev, x), 'step %d does not start from the '
                   'previous samples', n)
    prev = np.concatenate([e[3] for e in by[n]])
    w = w + net(x) / T
    want = _lse(w) - np.log(B)
    core.require(abs(logz[n - 1] - want) <= 2e-3 * (1 + abs(want)) +
                 1e-5 * T * (1 + np.abs(w).max()),
                 'estimate %d of %d is %r, the weights along the chains give '
                 '%r', n, T, logz[n - 1], want)
  if exact is not None:
    # unbiased: mean weight = Z ratio
    ws = np.exp(w - w.max())
    est, se = ws.mean(), ws.std() / np.sqrt(B)
    ref = np.exp(exact - w.max())
    core.require(abs(est - ref) <= 7 * se + 1e-3 * ref, 'the mean importance '
                 'weight of %d chains is exp(%.4f), the true ratio exp(%.4f), '
                 '%.1f standard errors away', B, logz[-1], exact,
                 abs(est - ref) / max(se, 1e-300))
  return bool(np.ptp(w) > 0)


def check_ref(case):
  model = exper.RefEBM(case['dim'], case['seed'], case['scale'], case['kind'])
  run = exper.run_ais(case, model, dict(name='resnet', shape=(case['dim'],),
                                        num_categories=2))
  exact = None
  if case['stat']:
    xs = np.array(list(itertools.product((0, 1), repeat=case['dim'])))
    m = np.asarray(model.mean, np.float64)
    base = (xs * np.log(m) + (1 - xs) * np.log1p(-m)).sum(1)
    exact = _lse(base + model.np_net(xs)) - _lse(base)
  spread = judge(case, run, model.np_net, exact)
  if case['kind'] == 'const':
    k = float(model.p['k'])
    z = np.asarray(run.logz['logz'], np.float64)
    want = k * np.arange(1, case['T'] + 1) / case['T']
    core.require(np.allclose(z, want, atol=1e-3 * (1 + abs(k))), 'with a '
                 'constant network %r the estimates are %s', k, z.tolist())
  return ('%s-%s%s' % (case['kind'], case['sampler'], '-d%d' % case['devices']
                       if case['devices'] else ''),
          spread or case['kind'] == 'const')


def check_image(case):
  """The repository's image EBM with a saved data mean."""
  import os
  import shutil
  import tempfile
  import jax.numpy as jnp
  import jax
  from ml_collections import config_dict
  from vp.props import c18
  d = tempfile.mkdtemp(prefix='ebm-', dir=os.environ.get('VP_SCRATCH', '/tmp'))
  try:
    _, params = mods.build(dict(case, pmode='init'))
    params = {k: jax.tree_util.tree_map(np.asarray, v)
              for k, v in dict(params).items()}
    r = core.rng_of('mean', case['seed'])
    nv = case['cfg']['shape'][0]
    mean = np.clip(r.uniform(size=nv), 0.05, 0.95).astype(np.float32)
    c18._save(d, dict(case, proto=4), params, mean.tolist(), {})
    m = mods.config(case).model.to_dict()
    m['data_path'] = d
    cfg = config_dict.ConfigDict(dict(model=m))
    import importlib
    model = importlib.import_module('discs.models.resnet').build_model(cfg)
    p0 = {k: v for k, v in model.make_init_params(None).items()
          if k != 'temperature'}
    full = jax.jit(lambda x: model.forward(p0, x))

    def net(x):
      x = np.asarray(x, np.float64)
      mm = np.asarray(mean, np.float64)
      base = (x * np.log(mm) + (1 - x) * np.log1p(-mm)).sum(1)
      return np.asarray(full(jnp.asarray(x, jnp.float32)), np.float64) - base

    run = exper.run_ais(case, model, dict(cfg.model.to_dict(), params=None))
    return 'image-%s%s' % (case['sampler'], '-d%d' % case['devices']
                           if case['devices'] else ''), judge(
                               case, run, net, None)
  finally:
    shutil.rmtree(d, ignore_errors=True)


REAL = ('gwg', 'path_auxiliary', 'dmala', 'dlmc', 'randomwalk', 'gibbs')


def strategy(samplers, devs, stat=False, image=False):
  def f():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
      if image:
        case = draw(mods.draw(('resnet',)))
        case['cfg'].update(n_channels=2, shape=[12], image_shape=[3, 4])
        case['dim'] = 12
      else:
        case = dict(dim=draw(st.integers(1, 6)),
                    seed=draw(st.integers(0, 10**6)))
      case['devices'] = d = draw(st.sampled_from(devs))
      case['stat'] = stat
      case['scale'] = draw(st.sampled_from([1.0, 0.3, 2.0] if stat else
                                           [1.0, 0.3, 3.0]))
      case['kind'] = 'net' if stat else draw(st.sampled_from(['net', 'net',
                                                              'const']))
      case['T'] = draw(st.integers(1, 8 if stat else 20))
      if stat:
        case['B'] = 4000
      elif d:
        case['B'] = d * draw(st.integers(1, 3))
      else:
        case['B'] = draw(st.integers(1, 8))
      case['sampler'] = s = draw(st.sampled_from(samplers))
      if s != 'scripted':
        case['opts'] = draw(samp.opts_strategy(s, 2, case['dim'], st))
        case['opts'].pop('block_size', None)
        if 'num_flips' in case['opts']:
          case['opts']['num_flips'] = 1
      return case

    return strat()
  return f


STRATA = [
    core.Stratum('weights', strategy(('scripted',), (0,)), check_ref, 64, 2000),
    core.Stratum('weights-devices', strategy(('scripted',), (2, 4)), check_ref,
                 32, 800),
    core.Stratum('unbiased', strategy(REAL, (0, 0, 2), stat=True), check_ref,
                 24, 400),
    core.Stratum('image-ebm', strategy(('gibbs', 'gwg', 'scripted'), (0, 0, 2),
                                       image=True), check_image, 3, 60,
                 shards=3),
]
RULE = ('A case is an annealed importance sampling run on an energy with a '
        'base distribution (generated network, constant network, or the '
        'repository\'s image EBM with a saved mean), 1-20 annealing steps, a '
        'scripted or real sampler and 1-4 devices. Every saved estimate is '
        'recomputed from the observed samples; with real samplers and 4000 '
        'chains the mean weight is compared with the exact ratio (7 standard '
        'errors). Non-trivial: weights differ between chains, or a constant '
        'network.')
ASSUMPTIONS = ['Several devices are emulated host devices.',
               'The energy interpolates as base + beta * network.']
