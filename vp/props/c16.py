"""C16: combinatorial energies score solutions exactly."""
import itertools

import numpy as np

from vp import core, comb

WARM = comb.warm


def _true_optimum(ds, inst):
  """Optimum of the combinatorial problem, by exhaustive search."""
  n, edges, _ = inst
  if ds.model_name == 'maxcut':
    return max(comb.maxcut_value(edges, x)
               for x in itertools.product((0, 1), repeat=n))
  best = 0
  for x in itertools.product((0, 1), repeat=n):
    s = [i for i in range(n) if x[i]]
    if len(s) <= best:
      continue
    pairs = itertools.combinations(s, 2)
    if ds.model_name == 'mis':
      ok = not any(p in edges for p in pairs)
    else:
      ok = all(p in edges for p in pairs)
    if ok:
      best = len(s)
  return best


def check(case):
  import jax
  import jax.numpy as jnp
  with comb.Dataset(case) as ds:
    model, cfg = ds.model()
    insts = ds.instances(model)
    total = cfg.model.max_num_nodes
    real = [(i, p) for i, p, _ in insts if i >= 0]
    core.require(len(real) == len(ds.expected), '%d instances delivered, %d '
                 'stored', len(real), len(ds.expected))
    fwd, ev = jax.jit(model.forward), jax.jit(model.evaluate)
    r = core.rng_of('x', case['seed'])
    K = cfg.model.num_categories
    exhaustive = False
    for i, params in real:
      inst = ds.expected[i]
      n = inst[0]
      if K ** total <= 1024:
        x = np.array(list(itertools.product(range(K), repeat=total)), np.int32)
        exhaustive = True
      else:
        x = r.integers(0, K, size=(256, total)).astype(np.int32)
        x[:4] = np.arange(4)[:, None] % K
      x = x[:, :total]
      want = np.array([comb.objective(ds, inst, row, total) for row in x])
      tol = 2e-5 * (np.abs(want) + len(inst[1]) * 10 + n + 1)
      for temp in case['temps']:
        p = dict(params, temperature=jnp.float32(temp))
        got = np.asarray(ev(p, jnp.asarray(x)), np.float64)
        core.require(got.shape == want.shape, 'scores have shape %s',
                     got.shape)
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
          j = int(np.argmax(bad))
          raise core.Violation(
              '%s instance %d (temperature %g): assignment %s scores %.6g, '
              'its objective is %.6g' % (ds.kind, i, temp, x[j].tolist(),
                                         got[j], want[j]))
        ll = np.asarray(fwd(p, jnp.asarray(x)), np.float64)
        bad = ~(np.abs(ll * temp - want) <= tol)
        if bad.any():
          j = int(np.argmax(bad))
          raise core.Violation(
              '%s instance %d: log-likelihood %.6g at temperature %g, '
              'objective %.6g' % (ds.kind, i, ll[j], temp, want[j]))
        if case.get('floats'):
          z = (x.astype(np.float32) if K == 2 and ds.model_name != 'normcut'
               else np.eye(K, dtype=np.float32)[x])
          gf = np.asarray(ev(p, jnp.asarray(z)), np.float64)
          core.require((np.abs(gf - want) <= tol).all(),
                       '%s instance %d: the float / one-hot encoding of an '
                       'assignment scores differently', ds.kind, i)
      if ds.model_name == 'normcut':
        continue
      if K ** total <= 1024:
        best = got.max()
        opt = _true_optimum(ds, inst)
        core.require(abs(best - opt) <= 1e-3 + tol.max(),
                     '%s instance %d: the best score over all assignments is '
                     '%.6g, the optimum of the problem is %.6g', ds.kind, i,
                     best, opt)
        # padding contributes nothing: flipping padding bits keeps the score
      if total > n:
        y = x.copy()
        y[:, n:] = 1 - y[:, n:]
        gy = np.asarray(ev(p, jnp.asarray(y)), np.float64)
        core.require((np.abs(gy - got) <= tol).all(), '%s instance %d: the '
                     'value of padding nodes changes the score', ds.kind, i)
    sizes = set(ds.expected[i][0] for i, _ in real)
    return ds.kind, any(e[1] for e in ds.expected) and (
        exhaustive or len(sizes) > 0)


def _mk(kinds, **kw):
  def f():
    from hypothesis import strategies as st
    return st.builds(
        lambda c, t, fl: dict(c, temps=t, floats=fl),
        comb.draw_dataset(kinds, **kw),
        st.lists(st.sampled_from([1.0, 0.2, 3.0, 0.01]), min_size=1,
                 max_size=2), st.booleans())
  return f


STRATA = [
    core.Stratum('maxcut', _mk(('ba', 'er', 'optsicom'), n_hi=8), check, 64, 1500),
    core.Stratum('mis', _mk(('ertest', 'er_density', 'satlib'), n_hi=8), check, 64, 1500),
    core.Stratum('mis-penalties', _mk(('ertest', 'er_density'), n_hi=8,
                                      penalties=[1.0001, 1.001, 2.0, 1.5]), check, 32, 800),
    core.Stratum('maxclique', _mk(('rb', 'twitter'), n_hi=8), check, 64, 1500),
    core.Stratum('maxclique-penalties', _mk(('rb', 'twitter'), n_hi=8,
                                            penalties=[1.0, 1.01, 3.0]), check, 24, 600),
    core.Stratum('normcut', _mk(('nets', 'gap_rand'), n_hi=9), check, 64, 1500),
]
STRATA.append(core.Stratum('large', _mk(
    tuple(comb.KINDS), n_lo=25, n_hi=70, g_hi=2, nv=(8, 14), clauses=30),
                           check, 48, 600))
RULE = ('A case is a dataset of 1-4 generated graphs (1-9 nodes, any density, '
        'weights of several kinds, nodes and edges inserted in random order, '
        'announced sizes with or without slack) written in the file layout of '
        'one of the ten loaders and read through the real model; all '
        'assignments of up to 1024 (else 256 random ones) are scored against '
        'the written definition, at 1-2 temperatures, and the best score '
        'against exhaustive search. Non-trivial: some graph has an edge.')
ASSUMPTIONS = ['Normalised-cut graphs of one dataset have the same number of '
               'nodes, as in the shipped datasets.']
