"""C09: reported energy-evaluation counts and acceptance are the real ones."""
import numpy as np

from vp import comb, core, histories, mods, samp


def WARM():
  samp.warm()
  comb.warm()
  mods.warm()


class Counting:
  """Wraps a model; counts sample rows evaluated (value+gradient: twice)."""

  def __init__(self, model):
    self.m = model
    self.params = getattr(model, 'params', None)
    self.rows = 0
    self.seen = []

  def _count(self, weight, x):
    import jax

    def add(v):      # called once per sample batch, also inside vmap and loops
      self.rows += weight * int(np.shape(v)[0])
      self.seen.append(np.asarray(v))
    jax.debug.callback(add, x)

  def forward(self, params, x):
    self._count(1, x)
    return self.m.forward(params, x)

  def get_value_and_grad(self, params, x):
    self._count(2, x)
    return self.m.get_value_and_grad(params, x)


def check_counts(case):
  import jax
  import jax.numpy as jnp
  sampler = samp.build_sampler(case)
  inner = samp.RefModel(case['shape'], case['C'], case['mseed'],
                        case['scales'][0])
  model = Counting(inner)
  b = case['B']
  x = jnp.asarray(core.rng_of('x0', case['xseed']).integers(
      0, case['C'], size=(b,) + tuple(case['shape'])), jnp.int32)
  state = sampler.make_init_state(samp.key_of('i', case['xseed']))
  core.require(int(state['num_ll_calls']) == 0, 'a fresh sampler reports %d '
               'energy evaluations', int(state['num_ll_calls']))
  plus = case.get('offset', 0)
  state = dict(state, num_ll_calls=state['num_ll_calls'] + plus)
  steps0 = int(state['steps']) if 'steps' in state else None
  prev = plus
  with jax.disable_jit():
    for t in range(case['T']):
      before = model.rows
      x, state, acc = sampler.step(
          model=model, rng=samp.key_of('k', case['xseed'], t), x=x,
          model_param=inner.params, state=dict(state))
      now = int(state['num_ll_calls'])
      jax.effects_barrier()
      made = (model.rows - before) / b
      core.require(now - prev == made, 'step %d of %s %s made %g energy '
                   'evaluations per chain but reports %d', t + 1,
                   case['sampler'], case['opts'], made, now - prev)
      prev = now
      if case['sampler'] in ('gibbs', 'blockgibbs', 'hammingball'):
        core.require(float(acc) == 1.0, 'a Gibbs-type step reports acceptance '
                     '%r', float(acc))
  if case['sampler'] != 'randomwalk':
    core.require(int(state['steps']) - steps0 == case['T'],
                 '%d steps were taken but the state counts %d', case['T'],
                 int(state['steps']) - steps0)
  return '%s-%d' % (case['sampler'], case['C']), True


def check_jit(case):
  """The compiled step reports the same running totals, step after step."""
  tr = histories.run(case)
  n = tr.state['num_ll_calls'].astype(np.int64)
  d = np.diff(n, axis=1)
  core.require((d > 0).all() and (d == d[:, :1]).all(),
               'evaluation counts per step vary: %s', d[0].tolist())
  C, name, o = case['C'], case['sampler'], case['opts']
  return '%s-%d' % (name, C), case['T'] > 1


def check_total(case):
  import jax
  import jax.numpy as jnp
  sampler = samp.build_sampler(case)
  inner = samp.RefModel(case['shape'], case['C'], case['mseed'],
                        case['scales'][0])
  model = Counting(inner)
  b, name = case['B'], case['sampler']
  x = jnp.asarray(core.rng_of('x0', case['xseed']).integers(
      0, case['C'], size=(b,) + tuple(case['shape'])), jnp.int32)
  state = sampler.make_init_state(samp.key_of('i', case['xseed']))
  step = jax.jit(lambda k, x, st: sampler.step(
      model=model, rng=k, x=x, model_param=inner.params, state=dict(st)))
  prev = 0
  for t in range(case['T']):
    model.rows = 0
    x, state, _ = step(samp.key_of('k', case['xseed'], t), x, state)
    x = x.astype(jnp.int32)
    now = int(state['num_ll_calls'])
    jax.effects_barrier()
    core.require(now - prev == model.rows / b, 'step %d of %s on samples of '
                 'shape %s with %d values and %d chains reports %d energy '
                 'evaluations, it makes %g per chain', t + 1, name,
                 case['shape'], case['C'], b, now - prev, model.rows / b)
    prev = now
  return '%s-%d' % (name, case['C']), True


def check_acc(case):
  """Mean acceptance == fraction of chains that took their proposal."""
  import jax
  import jax.numpy as jnp
  sampler = samp.build_sampler(case)
  inner = samp.RefModel(case['shape'], case['C'], case['mseed'],
                        case['scales'][0])
  b = 4000
  C, shape = case['C'], tuple(case['shape'])
  x = jnp.asarray(core.rng_of('x0', case['xseed']).integers(
      0, C, size=(b,) + shape), jnp.int32)
  state = sampler.make_init_state(samp.key_of('i', case['xseed']))
  dec = lambda a: (a.argmax(-1) if a.ndim == len(shape) + 2 else a).astype(int)

  def run(b, x, state, steps, tag):
    tot = n = 0.0
    informative = 0
    with jax.disable_jit():
      for t in range(steps):
        model = Counting(inner)
        y, state, acc = sampler.step(
            model=model, rng=samp.key_of(tag, case['xseed'], t), x=x,
            model_param=inner.params, state=dict(state))
        jax.effects_barrier()
        xi = np.asarray(x).astype(int)
        props = [dec(s) for s in model.seen if s.shape[0] == b]
        props = [s for s in props if (s != xi).any()]
        if any((s != props[0]).any() for s in props[1:]):
          return None
        prop = props[0] if props else xi
        took = (np.asarray(y) == prop).reshape(b, -1).all(1)
        tot += float(took.sum()) - b * float(acc)
        n += b
        informative += int((~took).sum())
        x = jnp.asarray(y).astype(jnp.int32)
    return tot / (0.5 * np.sqrt(n)), informative

  out = run(b, x, state, case['T'], 'a')
  if out is None:
    return case['sampler'] + '-unclear', False
  z, inf = out
  if abs(z) > 5:
    z, inf = run(b, x, state, 4 * case['T'], 'b')
    core.require(abs(z) < 6.5, '%s %s: the reported acceptance differs from the '
                 'fraction of accepted proposals by %.1f standard errors '
                 '(bound)', case['sampler'], case['opts'], z)
  return '%s-%d' % (case['sampler'], C), inf > 50


def check_neighborhood(case):
  """PAS on exact log-ratios: one model pass per local distribution."""
  import jax.numpy as jnp
  if case['what'] == 'bernoulli':
    model, params = mods.build(case)
    x = jnp.asarray(mods.samples(case, case['B']), jnp.int32)
    shape, K, kind = list(x.shape[1:]), 2, 'bernoulli'
  else:
    with comb.Dataset(case) as ds:
      model, cfg = ds.model()
      insts = [(i, p) for i, p, _ in ds.instances(model) if i >= 0]
    params = dict(insts[0][1], temperature=jnp.float32(1.0))
    shape, K = [cfg.model.max_num_nodes], cfg.model.num_categories
    kind = ds.kind
    if ds.model_name == 'normcut' and K == 2:
      return 'two-groups', False
    x = jnp.asarray(core.rng_of('x0', case['seed']).integers(
        0, K, size=(case['B'], shape[0])), jnp.int32)
  opts = dict(case['opts'], approx_with_grad=False)
  opts['num_flips'] = min(opts['num_flips'], int(np.prod(shape)))
  sampler = samp.build_sampler(dict(sampler='path_auxiliary', C=K, shape=shape,
                                    opts=opts))
  passes = []
  real = model.logratio_in_neighborhood

  def counted(p, z):
    passes.append(int(z.shape[0]))
    return real(p, z)

  model.logratio_in_neighborhood = counted
  state = sampler.make_init_state(samp.key_of('i', case['seed']))
  prev = 0
  for t in range(2):
    del passes[:]
    x, state, _ = sampler.step(model=model, rng=samp.key_of('k', t), x=x,
                               model_param=params, state=dict(state))
    x = x.astype(jnp.int32)
    now = int(state['num_ll_calls'])
    core.require(now - prev == sum(passes) / case['B'], 'PAS on the exact '
                 'log-ratios of %s made %g model passes per chain but reports '
                 '%d energy evaluations', kind, sum(passes) / case['B'],
                 now - prev)
    prev = now
  return kind, True


def _neighborhood():
  from hypothesis import strategies as st
  o = samp.opts_strategy('path_auxiliary', 2, 3, st)
  return st.one_of(
      st.builds(lambda c, o, b: dict(c, what='comb', opts=o, B=b),
                comb.draw_dataset(('ba', 'ertest', 'nets', 'er'), n_hi=6,
                                  g_hi=1), o, st.sampled_from([2, 1, 3])),
      st.builds(lambda c, o: dict(c, what='bernoulli', opts=o),
                mods.draw(('bernoulli',)), o))


MH = ('randomwalk', 'gwg', 'path_auxiliary', 'dmala', 'dlmc')


def _counts():
  from hypothesis import strategies as st
  base = histories.case_strategy(steps=(2, 1, 3), groups=1, scales=(1.0, 0.3),
                                 dims=[3, 1, 2, 4, 5, 6], cats=(2, 3, 4),
                                 batches=(2, 1, 3), co_opt=True)
  small = base.filter(lambda c: c['C'] ** c['opts'].get('block_size', 1) <= 64)
  return st.tuples(small, st.sampled_from([0, 7])).map(
      lambda t: dict(t[0], offset=t[1]))


def _jit():
  return histories.case_strategy(steps=(10, 3), groups=4, scales=(1.0, 3.0),
                                 cats=(2, 3, 5), co_opt=True,
                                 dims=[4, 2, 3, 6, 9])


def _acc():
  return histories.case_strategy(names=MH, steps=(3,), groups=1,
                                 scales=(1.0, 2.0, 0.5),
                                 dims=[4, 2, 3, 6], cats=(2, 3, 4),
                                 co_opt=True)


STRATA = [
    core.Stratum('counts', _counts, check_counts, 64, 1200, shards=8),
    core.Stratum('compiled-counts', _jit, check_jit, 40, 600, shards=8),
    core.Stratum('long-counts', lambda: histories.case_strategy(
        steps=(300, 1200), groups=2, scales=(1.0, 0.3), cats=(2, 3, 5),
        co_opt=True, dims=[4, 2, 3, 6, 9]), check_jit, 24, 300, shards=8),
    core.Stratum('large-counts', lambda: histories.large_strategy(
        steps=(3, 10), groups=1, batches=(3, 17)), check_total, 32, 400,
                 shards=8),
    core.Stratum('neighbourhood-counts', _neighborhood, check_neighborhood, 24, 400, shards=4),
    core.Stratum('acceptance', _acc, check_acc, 40, 800, shards=8),
]
RULE = ('counts: 1-3 uncompiled steps of a random sampler on a model that '
        'counts evaluated sample rows (a value-and-gradient call counts twice); '
        'the state must report rows per chain exactly. long-counts: the totals of '
        '300 or 1200 compiled steps grow evenly. large-counts: compiled steps '
        'on up to 160 coordinates, 300 values, 17 chains. acceptance: 4000 chains, '
        'the reported acceptance must match the fraction of chains that took '
        'the proposal the model was asked about. neighbourhood-counts: PAS on '
        'exact log-ratios of the Bernoulli and graph models, where one pass '
        'over the neighbourhood counts as one evaluation. Non-trivial: at least 50 '
        'rejections seen (acceptance), more than one step (compiled).')
ASSUMPTIONS = ['Uncompiled and compiled steps run the same code.']
