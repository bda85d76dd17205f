"""C36: one step of each sampler makes the transitions of its algorithm."""
import numpy as np

from vp import core, kernels, samp

WARM = samp.warm

N1, N2 = 1 << 15, 1 << 20
Z1, Z2 = 4.3, 7.0
CHUNK = 1 << 13


Model = samp.RefModel


def _laws(case, sp, idx, state, fresh, mask):
  """Expected law of every row, or None if the state is ambiguous."""
  name, o, dim = case['sampler'], case['opts'], sp.dim
  bal = o.get('balancing_fn_type')
  num = lambda k: float(np.asarray(state[k]))

  def count(start, adaptive):
    if not adaptive:
      return int(start)
    r = float(start) if fresh else num('radius')
    if abs(r - np.floor(r) - 0.5) < 1e-3:
      return None
    return int(min(max(round(r), 1), dim))

  if name == 'randomwalk':
    r = 1.0 if fresh else num('radius')
    return [kernels.randomwalk(sp, i, r) for i in idx]
  if name in ('gibbs', 'blockgibbs', 'hammingball'):
    at = 0 if fresh else int(num('index'))
    size = 1 if name == 'gibbs' else o['block_size']
    block = range(at, min(at + size, dim))
    f = kernels.hammingball if name == 'hammingball' else kernels.conditional
    return [f(sp, i, block) for i in idx]
  if name == 'gwg':
    if sp.C != 2:
      return [kernels.gwg_categorical(sp, i, bal) for i in idx]
    k = count(1 if o['adaptive'] else o['num_flips'], o['adaptive'])
    return k and [kernels.gwg_binary(sp, i, k, bal, mask) for i in idx]
  if name == 'path_auxiliary':
    k = count(o['num_flips'], o['adaptive'])
    if mask is not None and k is not None and k > mask.sum():
      return None
    return k and [kernels.pas(sp, i, k, bal,
                              exact=not o.get('approx_with_grad', True),
                              mask=mask) for i in idx]
  if name in ('dmala', 'dlmc'):
    flips = 3.0 if name == 'dmala' else o['n']
    if name == 'dmala' and not o['adaptive']:
      lt = -1 / (2 * o['step_size'])
    elif case.get('co_opt') and o['adaptive']:
      lt = [np.log(flips) - kernels.log_z(sp, [s], bal) for s in range(sp.n)]
    elif fresh:
      lt = np.log(flips) - kernels.log_z(sp, idx, bal)
    else:
      lt = num('log_tau')
    if name == 'dmala':
      return [kernels.dmala(sp, i, lt, bal) for i in idx]
    return [kernels.dlmc(sp, i, lt, bal, o['solver']) for i in idx]
  raise core.HarnessError(name)


class _Tally:

  def __init__(self, b, n):
    self.c = np.zeros((b, n))
    self.n = 0
    self.s = self.ss = 0.0

  def add(self, jdx, acc):
    for r in range(self.c.shape[0]):
      self.c[r] += np.bincount(jdx[:, r], minlength=self.c.shape[1])
    self.n += len(jdx)
    if acc is not None:
      self.s += float(acc.sum())
      self.ss += float((acc * acc).sum())

  def worst(self, laws, acc):
    """(|z|, text) of the largest deviation from the expected laws."""
    best = (0.0, '')
    for r, law in enumerate(laws):
      p = law.p / law.p.sum()
      exp = p * self.n
      big = exp >= 40
      obs = np.append(self.c[r][big], self.c[r][~big].sum())
      q = np.append(p[big], p[~big].sum())
      names = list(np.flatnonzero(big)) + ['rare']
      if q[-1] * self.n < 40:
        # too rare to be normal: only a gross excess speaks
        z = (obs[-1] - q[-1] * self.n) / np.sqrt(q[-1] * self.n + 25.0)
        zs = list((obs[:-1] - q[:-1] * self.n) / np.sqrt(
            self.n * q[:-1] * (1 - q[:-1]) + 1.0)) + [max(z, 0.0)]
      else:
        zs = list((obs - q * self.n) / np.sqrt(self.n * q * (1 - q) + 1.0))
      k = int(np.argmax(np.abs(zs)))
      if abs(zs[k]) > best[0]:
        best = (abs(float(zs[k])), 'chain %d moves to state %s with frequency '
                '%.6f, the algorithm says %.6f' %
                (r, names[k], obs[k] / self.n, q[k]))
    if acc is not None:
      m = self.s / self.n
      v = max(self.ss / self.n - m * m, 0.0)
      z = (abs(m - acc) - 2e-4) / np.sqrt(v / self.n + 1e-12)
      if z > best[0]:
        best = (float(z), 'the mean returned acceptance is %.6f, the '
                'algorithm says %.6f' % (m, acc))
    return best


def _search(case, laws, acc, draw, what):
  for stage, n in ((1, N1), (2, N2)):
    tal = _Tally(len(laws), len(laws[0].p))
    step = 0
    while tal.n < n:
      tal.add(*draw('s%d-%d' % (stage, step)))
      step += 1
      if stage == 2 and tal.n == n // 8 and tal.worst(laws, acc)[0] < 3.5:
        return tal
    z, text = tal.worst(laws, acc)
    if stage == 1 and z < Z1:
      return tal
  core.require(z < Z2, 'one step of %s: %s (z=%.1f over %d chains)', what,
               text, z, tal.n)
  return tal


def check(case):
  import jax
  import jax.numpy as jnp
  sampler = samp.build_sampler(case)
  model = Model(case['shape'], case['C'], case['mseed'], case['scale'])
  sp = kernels.Space(model)
  shape = tuple(case['shape'])
  b = case['B']
  idx = core.rng_of('rows', case['xseed']).integers(0, sp.n, size=b)
  x = jnp.asarray(sp.states[idx].reshape((b,) + shape), jnp.int32)
  mask = jmask = None
  if case.get('mask'):
    mask = np.array(case['mask'][:sp.dim])
    jmask = jnp.asarray(np.repeat(mask[None], b, 0), jnp.float32)
  params = jax.tree_util.tree_map(jnp.asarray, model.params)
  st = sampler.make_init_state(samp.key_of('init', case['xseed']))
  cur = x
  one = jax.jit(lambda c, k, s: sampler.step(
      model=model, rng=k, x=c, model_param=params, state=s, x_mask=jmask))
  for t in range(case['warmup']):
    cur, st, _ = one(cur, samp.key_of('w', t, case['xseed']), dict(st))
    cur = cur.astype(jnp.int32)
  need = {'randomwalk': 'radius', 'gibbs': 'index', 'blockgibbs': 'index',
          'hammingball': 'index', 'gwg': 'radius', 'path_auxiliary': 'radius',
          'dmala': 'log_tau', 'dlmc': 'log_tau'}[case['sampler']]
  fresh = case['warmup'] == 0
  if not fresh and need not in st and not (case['sampler'] == 'gwg'):
    # the state is laid out differently: its first step is still known
    fresh, st = True, sampler.make_init_state(
        samp.key_of('init', case['xseed']))
  laws = _laws(case, sp, idx, st, fresh, mask)
  if laws is None:
    return 'ambiguous', False
  g = CHUNK

  def many(k):
    def f(kk):
      y, _, a = sampler.step(model=model, rng=kk, x=x, model_param=params,
                             state=dict(st), x_mask=jmask)
      return y, jnp.asarray(a, jnp.float32)
    return jax.vmap(f)(jax.random.split(k, g))

  run = jax.jit(many)

  def draw(tag):
    y, a = run(samp.key_of(tag, case['xseed']))
    y = np.asarray(y)
    core.require(y.shape == (g, b) + shape, 'a step changed the batch shape '
                 'to %s', y.shape[1:])
    y = y.reshape(g, b, -1).astype(np.int64)
    core.require(((y >= 0) & (y < sp.C)).all(), 'a step left the sample space')
    return sp.idx(y), np.asarray(a, np.float64)

  acc = float(np.mean([law.acc for law in laws]))
  tal = _search(case, laws, acc, draw, '%s %s' % (case['sampler'],
                                                  case['opts']))
  moved = 1 - np.mean([tal.c[r][i] / tal.n for r, i in enumerate(idx)])
  return ('%s-%s%s' % (case['sampler'], 'bin' if sp.C == 2 else 'cat',
                       '-start' if fresh else ''),
          moved > 0.003 and sp.dim > 1)


def check_lb(case):
  import jax
  import jax.numpy as jnp
  from discs.samplers import locallybalanced
  from ml_collections import config_dict
  model = Model(case['shape'], 2, case['mseed'], case['scale'])
  sp = kernels.Space(model)
  sampler = locallybalanced.build_sampler(config_dict.ConfigDict(dict(
      model=dict(shape=tuple(case['shape']), num_categories=2),
      sampler=dict(balancing_fn_type=case['bal']))))
  b = case['B']
  idx = core.rng_of('rows', case['xseed']).integers(0, sp.n, size=b)
  x = jnp.asarray(sp.states[idx].reshape((b,) + tuple(case['shape'])),
                  jnp.int32)
  params = jax.tree_util.tree_map(jnp.asarray, model.params)
  st = sampler.make_init_state(samp.key_of('i'))
  run = jax.jit(lambda k: jax.vmap(lambda kk: sampler.step(
      model=model, rng=kk, x=x, model_param=params, state=dict(st))[0])(
          jax.random.split(k, CHUNK)))
  laws = [kernels.locally_balanced(sp, i, case['bal']) for i in idx]

  def draw(tag):
    y = np.asarray(run(samp.key_of(tag, case['xseed'])))
    return sp.idx(y.reshape(CHUNK, b, -1).astype(np.int64)), None

  _search(case, laws, None, draw, 'the locally balanced walk')
  return case['bal'], sp.dim > 1


def _strat(name, cats, warm=(1, 0, 2, 4, 9, 25), **force):
  def build():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
      C = draw(st.sampled_from(cats))
      dims = {2: [3, 2, 4, 5], 3: [2, 3], 4: [2, 3], 5: [2]}[C]
      d = draw(st.sampled_from(dims))
      shape = draw(st.sampled_from([[d]] + {
          2: [[2, 1], [1, 2]], 3: [[3, 1], [1, 3]], 4: [[2, 2], [4, 1]],
          5: [[5, 1]]}.get(d, [])))
      o = draw(samp.opts_strategy(name, C, d, st))
      if name == 'hammingball':
        o['block_size'] = draw(st.sampled_from(
            [k for k in range(1, d + 1) if d % k == 0]))
      case = dict(sampler=name, C=C, shape=shape, opts=o,
                  B=1 if name == 'hammingball'
                  else draw(st.sampled_from([2, 1, 3])),
                  warmup=draw(st.sampled_from(list(warm))),
                  scale=draw(st.sampled_from([0.8, 0.4, 1.2])),
                  mseed=draw(st.integers(0, 10**6)),
                  xseed=draw(st.integers(0, 10**6)))
      if force.get('co_opt') or (name in ('dmala', 'dlmc') and
                                 draw(st.integers(0, 3)) == 3):
        case['co_opt'] = True
        case['B'] = 1
        o['adaptive'] = True
      if name == 'path_auxiliary' and C == 2 and draw(st.booleans()):
        o['approx_with_grad'] = False
      if name in ('gwg', 'path_auxiliary') and C == 2 and len(shape) == 1 \
          and d > 1 and draw(st.integers(0, 2)) == 2:
        m = draw(st.lists(st.sampled_from([1, 0]), min_size=d, max_size=d))
        if sum(m):
          case['mask'] = m
          o['num_flips'] = min(o['num_flips'], sum(m))
      return case

    return strat()
  return build


def _lb():
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      shape=st.sampled_from([[3], [2, 2], [2], [4], [5], [1, 3]]),
      bal=st.sampled_from(samp.BALANCE), B=st.sampled_from([2, 1, 3]),
      scale=st.sampled_from([0.8, 0.4, 1.5]),
      mseed=st.integers(0, 10**6), xseed=st.integers(0, 10**6)))


_S = core.Stratum
STRATA = [
    _S('randomwalk-binary', _strat('randomwalk', (2,)), check, 14, 250, shards=2),
    _S('randomwalk-categorical', _strat('randomwalk', (3, 4, 5)), check, 12, 250, shards=2),
    _S('gibbs', _strat('gibbs', (2, 3, 4, 5)), check, 12, 200, shards=2),
    _S('blockgibbs', _strat('blockgibbs', (2, 3, 4)), check, 16, 300, shards=4),
    _S('hammingball', _strat('hammingball', (2, 3, 4)), check, 16, 300, shards=4),
    _S('gwg-binary', _strat('gwg', (2,)), check, 24, 500, shards=4),
    _S('gwg-categorical', _strat('gwg', (3, 4, 5)), check, 16, 300, shards=4),
    _S('pas-binary', _strat('path_auxiliary', (2,)), check, 32, 600, shards=4),
    _S('pas-categorical', _strat('path_auxiliary', (3, 4)), check, 24, 500, shards=4),
    _S('dmala-binary', _strat('dmala', (2,)), check, 24, 500, shards=4),
    _S('dmala-categorical', _strat('dmala', (3, 4, 5)), check, 24, 500, shards=4),
    _S('dlmc-binary', _strat('dlmc', (2,)), check, 32, 600, shards=4),
    _S('dlmc-categorical', _strat('dlmc', (3, 4, 5)), check, 32, 600, shards=4),
    _S('locally-balanced', _lb, check_lb, 12, 150, shards=2),
]
RULE = ('A case is a sampler with options, 2-5 categories, 1-5 coordinates, '
        'one to three start states, a warm-up (the adapted state is one the '
        'sampler reached itself) and a random energy. 32768 independent steps '
        'are taken from the same states and the frequency of every end state, '
        'and the mean returned acceptance, are compared with the exact law of '
        'the named algorithm, enumerated in float64; an excess is confirmed '
        'on a million fresh steps at 7 sigma. Non-trivial: more than one '
        'coordinate and chains moved.')
ASSUMPTIONS = ['Spaces of at most 64 states and moderate energies.',
               'Frequencies closer than about 0.003 to the exact law are not '
               'told apart from it.']
