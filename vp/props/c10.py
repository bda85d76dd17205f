"""C10: sampling primitives follow their stated laws."""
import itertools
import math

import numpy as np

from vp import core, samp

WARM = samp.warm


def _mu():
  from discs.common import math_util
  return math_util


# ------------------------------------------------------------ scalar functions
def check_balance(case):
  import jax.numpy as jnp
  from ml_collections import config_dict
  from discs.samplers import locallybalanced
  cfg = config_dict.ConfigDict(dict(
      model=dict(shape=(3,), num_categories=2),
      sampler=dict(balancing_fn_type=case['fn'])))
  s = locallybalanced.build_sampler(cfg)
  lt = np.array(case['logt'], np.float64)
  t = np.exp(lt)
  ref = {'SQRT': np.sqrt(t), 'RATIO': t / (t + 1), 'MAX': np.maximum(t, 1),
         'MIN': np.minimum(t, 1)}[case['fn']]
  g = np.asarray(s.apply_weight_function(jnp.asarray(t, jnp.float32)),
                 np.float64)
  gi = np.asarray(s.apply_weight_function(jnp.asarray(1 / t, jnp.float32)),
                  np.float64)
  lg = np.asarray(s.apply_weight_function_logscale(
      jnp.asarray(lt, jnp.float32)), np.float64)
  lgi = np.asarray(s.apply_weight_function_logscale(
      jnp.asarray(-lt, jnp.float32)), np.float64)
  core.require(np.allclose(g, t * gi, rtol=1e-5), '%s: g(t) != t g(1/t) at %s',
               case['fn'], t.tolist())
  core.require(np.allclose(lg, lt + lgi, rtol=1e-5, atol=1e-5),
               '%s: log g(t) != log t + log g(1/t) at log t = %s', case['fn'],
               lt.tolist())
  core.require(np.allclose(lg, np.log(g), rtol=1e-4, atol=2e-5),
               '%s: the log-scale function disagrees with the plain one at '
               'log t = %s: %s vs %s', case['fn'], lt.tolist(), lg.tolist(),
               np.log(g).tolist())
  core.require(np.allclose(g, ref, rtol=1e-5), '%s is not the documented '
               'function at t = %s', case['fn'], t.tolist())
  # far outside the range of exp the log-scale function must still work
  big = np.array([-300.0, 300.0]) * case['far']
  lb = np.asarray(s.apply_weight_function_logscale(
      jnp.asarray(big, jnp.float32)), np.float64)
  want = {'SQRT': big / 2, 'RATIO': np.minimum(big, 0), 'MAX':
          np.maximum(big, 0), 'MIN': np.minimum(big, 0)}[case['fn']]
  core.require(np.allclose(lb, want, rtol=1e-5, atol=1e-6),
               '%s: log-scale function at %s is %s', case['fn'], big.tolist(),
               lb.tolist())
  return case['fn'], True


def check_scalar(case):
  import jax.numpy as jnp
  mu = _mu()
  x = np.array(case['x'], np.float32)
  want = np.log(-np.expm1(-np.abs(x.astype(np.float64))))
  got = np.asarray(mu.log1mexp(jnp.asarray(x)), np.float64)
  core.require(np.allclose(got, want, rtol=2e-5, atol=1e-9) or np.allclose(
      np.exp(got), np.exp(want), rtol=5e-6, atol=1e-30),
               'log(1-exp(-|x|)) at %s: got %s, exact %s', x.tolist(),
               got.tolist(), want.tolist())
  n, k = case['n'], case['k']
  core.require(mu.comb(n, k) == math.comb(n, k), 'comb(%d, %d) = %s', n, k,
               mu.comb(n, k))
  it = case['it']
  want = 1
  for v in it:
    want *= v
  core.require(mu.prod(it) == want and mu.prod(tuple(it)) == want,
               'prod(%s) = %s', it, mu.prod(it))
  return 'scalar', True


# ------------------------------------------------------------ multinomial
def _logp(case, rows=None):
  r = core.rng_of('p', case['pseed'])
  n = case['n']
  lead = tuple(case['lead'])
  lo = r.normal(size=lead + (n,)) * case['spread']
  lo = lo - np.log(np.exp(lo - lo.max(-1, keepdims=True)).sum(
      -1, keepdims=True)) - lo.max(-1, keepdims=True)
  return lo.astype(np.float32)


def _ordered_ll(lp, idx):
  """Exact log-prob of drawing idx in this order without replacement."""
  p = np.exp(lp.astype(np.float64))
  p = p / p.sum()
  out, rest = [], 1.0
  left = np.ones(len(p), bool)
  for i in idx:
    rest = p[left].sum()
    out.append(np.log(p[i] / rest))
    left[i] = False
  return np.array(out)


def _resid(lp, idx):
  p = np.exp(lp.astype(np.float64))
  m = [1.0]
  left = np.ones(len(p), bool)
  for i in idx[:-1]:
    left[i] = False
    m.append(p[left].sum())
  return np.array(m)


def check_draws(case):
  """Structure and likelihoods of multinomial draws."""
  import jax
  import jax.numpy as jnp
  mu = _mu()
  lp = _logp(case)
  n, k = case['n'], case['k']
  const, repl = case['const'], case['repl']
  lead = lp.shape[:-1]
  ordinfo = case['ordering'] and not const and not repl
  ns = k if const else jnp.asarray(k, jnp.int32)
  kw = {}
  if repl and not const:
    kw['batch_size'] = case['bs']

  def fn(key, lpx, ns_):
    return mu.multinomial(key, lpx, k if const else ns_, replacement=repl,
                          is_nsample_const=const, return_ll=case['ll'],
                          need_ordering_info=ordinfo, **kw)

  out = jax.jit(fn)(samp.key_of('d', case['xseed']), jnp.asarray(lp),
                    jnp.asarray(k, jnp.int32))
  sel, ll = out if case['ll'] else (out, None)
  pert = None
  if ordinfo:
    sel, pert = np.asarray(sel['selected_mask']), np.asarray(
        sel['perturbed_ll'])
  sel = np.asarray(sel)
  ll = None if ll is None else np.asarray(ll, np.float64)
  bad = 0
  flat_lp = lp.reshape(-1, n)
  if const:
    core.require(sel.shape == lead + (k,), 'drew an array of shape %s for %d '
                 'draws from %s', sel.shape, k, lp.shape)
    core.require(((sel >= 0) & (sel < n)).all(), 'index out of range')
    fs = sel.reshape(-1, k)
    if not repl:
      core.require(all(len(set(r.tolist())) == k for r in fs),
                   'a draw without replacement repeats an index')
    if ll is not None:
      core.require(ll.shape == sel.shape, 'likelihood shape %s', ll.shape)
      core.require((ll <= 1e-6).all() and not np.isnan(ll).any(),
                   'a log-likelihood is positive or NaN')
      for row, l, p in zip(fs, ll.reshape(-1, k), flat_lp):
        want = (p[row] if repl else _ordered_ll(p, row))
        tol = 2e-3 + (0 if repl else 6e-6 / np.maximum(_resid(p, row), 1e-9))
        core.require((np.abs(l - want) <= tol).all(),
                     'log-likelihood of the ordered draw %s from %s reported '
                     'as %s, exact %s', row.tolist(), np.exp(p).tolist(),
                     l.tolist(), want.tolist())
  else:
    core.require(sel.shape == lp.shape, 'counts of shape %s for %s', sel.shape,
                 lp.shape)
    fs = sel.reshape(-1, n)
    if repl:
      core.require((fs.sum(1) == k).all() and (fs >= 0).all(),
                   'asked for %d draws, got counts %s', k, fs[:3].tolist())
    else:
      core.require(set(np.unique(fs)) <= {0, 1}, 'selection is not 0/1')
      bad = int((fs.sum(1) != k).sum())
      core.require(bad <= 1, 'asked for %d distinct indices, got %s', k,
                   fs.sum(1).tolist()[:6])
    if ll is not None and not bad:
      fl = ll.reshape(-1, n)
      core.require(not np.isnan(fl).any() and (fl <= 1e-6).all(),
                   'a log-likelihood is positive or NaN')
      fp = None if pert is None else pert.reshape(-1, n)
      for j, (row, l, p) in enumerate(zip(fs, fl, flat_lp)):
        core.require((l[row == 0] == 0).all(), 'an index that was not drawn '
                     'has a log-likelihood')
        if repl:
          want = p * row
          core.require(np.allclose(l, want, atol=1e-4, rtol=1e-4),
                       'log-likelihood of counts %s reported as %s',
                       row.tolist(), l.tolist())
        else:
          if fp is not None:
            idx = np.argsort(-fp[j], kind='stable')[:k]
            core.require(set(idx.tolist()) == set(np.where(row)[0].tolist()),
                         'the reported order does not match the selection')
            cands = [idx]
          else:
            cands = [np.array(c) for c in itertools.permutations(
                np.where(row)[0])] if k <= 4 else None
            if cands is None:
              continue
          ok = False
          for idx in cands:
            tol = 2e-3 + 6e-6 / np.maximum(_resid(p, idx), 1e-9)
            ok |= bool((np.abs(l[idx] - _ordered_ll(p, idx)) <= tol).all())
          core.require(ok, 'log-likelihood of drawing %s without replacement '
                       'from %s reported as %s', np.where(row)[0].tolist(),
                       np.exp(p).tolist(), l[np.where(row)[0]].tolist())
  return '%s-%s' % ('const' if const else 'var', 'repl' if repl else 'norepl'
                    ), k > 1


def check_law(case):
  """Frequencies of (ordered) outcomes against exact probabilities."""
  import jax
  import jax.numpy as jnp
  mu = _mu()
  n, k, const, repl = case['n'], case['k'], case['const'], case['repl']
  lp = _logp(dict(case, lead=[]))
  p = np.exp(lp.astype(np.float64))
  p /= p.sum()
  probs = {}
  if repl:
    for idx in itertools.product(range(n), repeat=k):
      q = float(np.prod(p[list(idx)]))
      key = idx if const else tuple(np.bincount(idx, minlength=n).tolist())
      probs[key] = probs.get(key, 0) + q
  else:
    for idx in itertools.permutations(range(n), k):
      q = float(np.exp(_ordered_ll(lp, idx).sum()))
      key = idx if const else tuple(
          [1 if i in idx else 0 for i in range(n)])
      probs[key] = probs.get(key, 0) + q

  def draw(m, tag):
    big = jnp.broadcast_to(jnp.asarray(lp), (m, n))
    fn = jax.jit(lambda key, l, q: mu.multinomial(
        key, l, k if const else q, replacement=repl, is_nsample_const=const))
    return np.asarray(fn(samp.key_of(tag, case['xseed']), big,
                         jnp.asarray(k, jnp.int32)))

  codes = {o: i for i, o in enumerate(probs)}
  q = np.array(list(probs.values()))
  base = max(n, k + 1)
  w = base ** np.arange(k if const else n)
  table = np.full(int((w * (base - 1)).sum()) + 1, len(q), np.int64)
  for o, i in codes.items():
    table[int((np.array(o) * w).sum())] = i

  def zmax(m, tag):
    s = draw(m, tag).reshape(m, -1)
    cnt = np.bincount(table[(s * w).sum(1)], minlength=len(q) + 1)
    core.require(cnt[-1] <= 2, '%d of %d draws are impossible outcomes',
                 int(cnt[-1]), m)
    cnt = cnt[:-1]
    e = m * q
    z = (cnt - e) / np.sqrt(np.maximum(e * (1 - q), 1e-9))
    z = np.where(e >= 25, z, 0)
    i = int(np.abs(z).argmax())
    return abs(z[i]), list(codes)[i], cnt[i], e[i]

  z, o, c, e = zmax(1 << 15, 'l1')
  if z > 4.5:
    z, o, c, e = zmax(1 << 19, 'l2')
    core.require(z < 7, 'drawing %d of %s %s replacement gave outcome %s %d '
                 'times, expected %.0f (z=%.1f)', k, p.tolist(),
                 'with' if repl else 'without', list(o), int(c), e, z)
  return '%s-%s' % ('const' if const else 'var', 'repl' if repl else 'norepl'
                    ), k > 1


def check_mh(case):
  import jax
  import jax.numpy as jnp
  mu = _mu()
  lv = np.array(case['lv'], np.float32)
  shape = tuple(case['shape'])
  r = core.rng_of('mh', case['xseed'])

  def once(rep, tag):
    m = len(lv) * rep
    lp = np.repeat(lv, rep)[r.permutation(m)]
    cur = r.integers(0, 5, size=(m,) + shape).astype(np.int32)
    new = cur + 10
    y, acc = jax.jit(mu.mh_step)(samp.key_of(tag, case['xseed']),
                                 jnp.asarray(lp), jnp.asarray(cur),
                                 jnp.asarray(new))
    y, acc = np.asarray(y), np.asarray(acc)
    core.require(y.shape == cur.shape and acc.shape == (m,),
                 'shapes %s %s', y.shape, acc.shape)
    a = acc.astype(bool).reshape((m,) + (1,) * len(shape))
    core.require((y == np.where(a, new, cur)).all(), 'a chain reported as %s '
                 'does not hold the matching sample', 'accepted/rejected')
    worst = (0.0, None, 0, 0)
    for v in np.unique(lv):
      hit = acc[lp == v].astype(float)
      p = min(1.0, math.exp(min(0.0, float(v))))
      core.require(p < 1 or hit.all(), 'log ratio %g >= 0 was rejected',
                   float(v))
      if v == -np.inf:
        core.require(not hit.any(), 'a zero-probability move was accepted')
        continue
      if p < 1 and hit.size * p > 25:
        z = (hit.sum() - hit.size * p) / math.sqrt(hit.size * p * (1 - p))
        if abs(z) > abs(worst[0]):
          worst = (z, float(v), hit.mean(), p)
    return worst

  z, v, got, p = once(6000, 'm1')
  if abs(z) > 4.5:
    z, v, got, p = once(100000, 'm2')
    core.require(abs(z) < 7, 'a move with log ratio %s was accepted with '
                 'frequency %.5f, should be %.5f', v, got, p)
  return 'mh-%dd' % len(shape), any(-6 < x < 0 for x in case['lv'])


# ------------------------------------------------------------ generators
def _bal():
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      fn=st.sampled_from(samp.BALANCE), far=st.sampled_from([1.0, 3.0]),
      logt=st.lists(st.floats(-12, 12), min_size=1, max_size=8)))


def _scal():
  from hypothesis import strategies as st
  mag = st.floats(-4, 1.9).map(lambda e: 10.0 ** e)
  x = st.tuples(mag, st.sampled_from([-1, 1])).map(lambda t: t[0] * t[1])
  return st.fixed_dictionaries(dict(
      x=st.lists(x, min_size=1, max_size=6), n=st.integers(0, 300),
      k=st.integers(0, 300), it=st.lists(st.integers(0, 40), max_size=5))
                              ).map(lambda d: dict(d, k=min(d['k'], d['n'])))


def _draws():
  from hypothesis import strategies as st

  @st.composite
  def f(draw):
    n = draw(st.integers(2, 8))
    repl, const = draw(st.booleans()), draw(st.booleans())
    k = draw(st.integers(1, n + 2 if repl else n))
    return dict(n=n, k=k, repl=repl, const=const, ll=draw(
        st.sampled_from([True, True, False])),
                ordering=draw(st.booleans()), bs=draw(st.integers(1, 4)),
                lead=draw(st.sampled_from([[40], [5, 4], [1], []]
                                          if not (repl is False and const is
                                                  False) else [[40], [5, 4],
                                                               [1]])),
                spread=draw(st.sampled_from([1.0, 0.2, 3.0, 10.0])),
                pseed=draw(st.integers(0, 10**6)),
                xseed=draw(st.integers(0, 10**6)))

  return f()


def _law():
  from hypothesis import strategies as st

  @st.composite
  def f(draw):
    n = draw(st.integers(2, 5))
    repl = draw(st.booleans())
    return dict(n=n, k=draw(st.integers(1, 3 if repl else min(4, n))),
                repl=repl, const=draw(st.booleans()),
                spread=draw(st.sampled_from([1.0, 0.3, 2.0])),
                pseed=draw(st.integers(0, 10**6)),
                xseed=draw(st.integers(0, 10**6)))

  return f()


def _mh():
  from hypothesis import strategies as st
  v = st.one_of(st.floats(-5, 0.5), st.sampled_from([0.0, 3.0, 200.0, -0.01]))
  # -inf is not JSON: map it in
  return st.fixed_dictionaries(dict(
      lv=st.lists(v, min_size=1, max_size=4), xseed=st.integers(0, 10**6),
      shape=st.sampled_from([[3], [], [2, 2], [1], [2, 1, 3]])))


STRATA = [
    core.Stratum('balancing', _bal, check_balance, 150, 3000, shards=4),
    core.Stratum('scalar', _scal, check_scalar, 200, 4000, shards=2),
    core.Stratum('draws', _draws, check_draws, 160, 3000, shards=8),
    core.Stratum('law', _law, check_law, 64, 1200, shards=8),
    core.Stratum('metropolis', _mh, check_mh, 40, 800, shards=4),
]
RULE = ('balancing/scalar: random arguments against double-precision '
        'definitions. draws: random log-probability arrays, draw counts and '
        'modes; indices, counts and reported log-likelihoods of every row are '
        'recomputed exactly. law: 32768 draws from an enumerable outcome space '
        'against exact outcome probabilities (confirmed with 524288 fresh '
        'draws). metropolis: acceptance frequencies per log-ratio level and '
        'row-by-row agreement of flags and samples. Non-trivial: more than one '
        'draw (draws, law), a log ratio in (-6, 0) (metropolis).')
ASSUMPTIONS = ['float32 arithmetic: tolerances grow with 1/(remaining mass).']
