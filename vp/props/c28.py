"""C28: estimation-error and partition-quality metrics equal their definitions."""
import csv
import os
import pickle
import shutil
import tempfile

import numpy as np

from vp import comb, core


def WARM():
  import jax  # noqa: F401
  import networkx  # noqa: F401
  import scipy.sparse  # noqa: F401
  from discs.evaluators import bernoulli_eval  # noqa: F401
  from discs.models import bernoulli  # noqa: F401
  from discs.common import normcut_evaluator  # noqa: F401


def check_bernoulli(case):
  import jax
  import jax.numpy as jnp
  from ml_collections import config_dict
  from discs.evaluators import bernoulli_eval
  from discs.models import bernoulli
  r = core.rng_of('bern', case['seed'])
  T, B, n = case['T'], case['B'], case['n']
  th = (r.normal(size=n) * case['scale']).astype(np.float32)
  cfg = config_dict.ConfigDict(dict(
      model=dict(name='bernoulli', shape=(n,), init_sigma=1.0,
                 num_categories=2),
      experiment=dict(window_size=2, window_stride=1)))
  model = bernoulli.build_model(cfg)
  params = dict(params=jnp.asarray(th))
  p = 1 / (1 + np.exp(-th.astype(np.float64)))
  core.require(np.allclose(np.asarray(model.get_expected_val(params)), p,
                           rtol=1e-4, atol=1e-6), 'expected values are %s for '
               'parameters %s', model.get_expected_val(params), th.tolist())
  core.require(np.allclose(np.asarray(model.get_var(params)), p * (1 - p),
                           rtol=1e-3, atol=1e-6), 'variances are %s for '
               'parameters %s', model.get_var(params), th.tolist())
  x = (r.random((T, B, n)) < r.choice([p, np.full(n, .5), np.full(n, .05)])
       ).astype(np.int32)
  ev = bernoulli_eval.build_evaluator(cfg)
  got = jax.jit(lambda s: ev.evaluate(s, model, params))(jnp.asarray(x))
  got = [float(v) for v in got]
  xf = x.astype(np.float64)
  m = xf.mean(0)
  v = xf.var(0, ddof=1)
  lm, lv = xf[-1].mean(0), xf[-1].var(0, ddof=1)
  var = p * (1 - p)
  want = [((m - p) ** 2).mean(), ((m - p) ** 2).max(), ((v - var) ** 2).mean(),
          ((v - var) ** 2).max(), ((lm - p) ** 2).mean(),
          ((lv - var) ** 2).mean()]
  names = ['mean error', 'max mean error', 'variance error',
           'max variance error', 'mean error of the last samples',
           'variance error of the last samples']
  core.require(len(got) == 6, '%d errors are reported', len(got))
  for nme, a, b in zip(names, got, want):
    core.require(abs(a - b) <= 1e-5 + 1e-3 * b, '%s is %r, by definition %r '
                 '(%d steps, %d chains)', nme, a, b, T, B)
  return 'T%d' % min(T, 5), n > 1


def _quality(n, edges, groups, ng):
  cut = sum(groups[u] != groups[v] for u, v in edges)
  size = np.bincount(groups, minlength=ng).astype(float)
  bal = (n * n - (size ** 2).sum()) * ng / ((ng - 1) * n * n)
  return cut / max(len(edges), 1), bal


def check_partition(case):
  import scipy.sparse
  from discs.common import normcut_evaluator as ne
  g = case['graph']
  n, ng = g['n'], case['ng']
  edges = sorted({(min(u, v), max(u, v)) for u, v, _ in g['edges']})
  r = core.rng_of('part', case['seed'])
  groups = r.integers(0, max(1, ng - case['empty']), size=n)

  def run(groups, edges):
    a = np.zeros((n, n))
    for u, v in edges:
      a[u, v] = a[v, u] = 1.0
    mat = scipy.sparse.csr_matrix(a) if case['sparse'] else a
    cr, bal, text = ne.evaluate(groups, n, 2 * len(edges), mat, ng,
                                sparse=case['sparse'], stat='s')
    return float(cr), float(bal), text, a

  cr, bal, text, a = run(groups, edges)
  wc, wb = _quality(n, edges, groups, ng)
  core.require(abs(cr - wc) < 1e-9, 'cut ratio %r, %d of %d edges are cut', cr,
               round(wc * len(edges)), len(edges))
  core.require(abs(bal - wb) < 1e-9, 'balance %r of groups %s, expected %r',
               bal, groups.tolist(), wb)
  ncut = round(wc * len(edges))
  core.require(float(text.split()[1]) == ncut, 'the summary is %r, %d edges are '
               'cut', text, ncut)
  adj = [list(np.nonzero(a[i])[0]) for i in range(n)]
  core.require(ne.num_cut(groups, n, adj) == ncut, 'num_cut gives %r, %d edges '
               'are cut', ne.num_cut(groups, n, adj), ncut)
  vol = ne.calc_volume(groups, n, a, ng)
  want = [sum(a[i].sum() for i in range(n) if groups[i] == k)
          for k in range(ng)]
  core.require(np.allclose(vol, want), 'volumes %s, expected %s', vol, want)
  pg, pn = r.permutation(ng), r.permutation(n)
  g2 = np.zeros(n, int)
  g2[pn] = pg[groups]
  cr2, bal2, _, _ = run(g2, [(pn[u], pn[v]) for u, v in edges])
  core.require(abs(cr2 - cr) < 1e-9 and abs(bal2 - bal) < 1e-9, 'renumbering '
               'groups and nodes changes cut ratio and balance from %r, %r to '
               '%r, %r', cr, bal, cr2, bal2)
  return 'ng%d%s' % (ng, '-sparse' if case['sparse'] else ''), 0 < wc < 1


def check_report(case):
  """The report over saved runs, from graph file and result folders."""
  from absl import flags
  from vp.props import c31
  ne = c31.load_script('discs.common.normcut_evaluator')
  d = tempfile.mkdtemp(prefix='nc-', dir=os.environ.get('VP_SCRATCH', '/tmp'))
  cwd = os.getcwd()
  F = flags.FLAGS
  try:
    os.chdir(d)
    g = case['graph']
    n = g['n']
    edges = sorted({(min(u, v), max(u, v)) for u, v, _ in g['edges']})
    with open('g.pkl', 'wb') as f:
      pickle.dump(comb.to_nx(g, False), f)
    r = core.rng_of('rep', case['seed'])
    os.makedirs('runs/normcut-x')
    want = []
    for i, s in enumerate(case['samplers']):
      name = "%02d_config.experiment.sampler.name='%s'" % (i, s)
      os.makedirs(os.path.join('runs/normcut-x', name))
      x = r.integers(0, 3, size=n)
      other = r.integers(0, 3, size=n)
      with open(os.path.join('runs/normcut-x', name, 'results.pkl'), 'wb') as f:
        pickle.dump(dict(best_samples=np.stack([x, other]).astype(float),
                         trajectory=np.zeros((1, 2)), best_ratio=np.zeros(2)),
                    f)
      want.append((s,) + _quality(n, edges, x, 3))
    if not F.is_parsed():
      F(['x'])
    F.graph_file = 'g.pkl'
    F.gcs_results_path = './runs/normcut-x'
    ne.main(['x'])
    found = [os.path.join(a, f) for a, _, fs in os.walk('discs') for f in fs]
    core.require(len(found) == 1 and 'normcut-x' in found[0], 'the report '
                 'wrote %s', found)
    rows = list(csv.reader(open(found[0])))
  finally:
    os.chdir(cwd)
    shutil.rmtree(d, ignore_errors=True)
  core.require(len(rows) == len(want) + 1, 'the report has %d rows for %d runs',
               len(rows) - 1, len(want))
  short = dict(hammingball='hb-10-1', blockgibbs='bg-2', randomwalk='rmw',
               path_auxiliary='pafs')
  for row, (s, cr, bal) in zip(rows[1:], want):
    core.require(row[0] == short.get(s, s), 'a %s run is reported as %r', s,
                 row[0])
    core.require(abs(float(row[1]) - cr) < 1e-9 and
                 abs(float(row[2]) - bal) < 1e-9, 'run %r is reported with cut '
                 'ratio %s and balance %s, expected %r and %r', s, row[1],
                 row[2], cr, bal)
  return 'report%d' % len(want), len(edges) > 1


def _bern(big=False):
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      T=st.sampled_from([150, 400]) if big else st.integers(2, 20),
      B=st.sampled_from([33, 100]) if big else st.integers(2, 6),
      n=st.sampled_from([65, 130]) if big else st.integers(1, 8),
      scale=st.sampled_from([1.0, 0.1, 5.0]), seed=st.integers(0, 10**6)))


def _graph(draw, st, lo, hi):
  g = comb.draw_graph(draw, st, lo, hi, False)
  if not g['edges']:
    g['edges'] = [[0, 1, 1.0]]
  return g


def _part(lo=2, hi=9):
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    return dict(graph=_graph(draw, st, lo, hi), ng=draw(
        st.integers(2, 5 if hi < 20 else 12)),
                empty=draw(st.sampled_from([0, 0, 1, 4])),
                sparse=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))
  return strat()


def _rep():
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    return dict(graph=_graph(draw, st, 3, 8), samplers=draw(st.lists(
        st.sampled_from(['gwg', 'path_auxiliary', 'dlmc', 'hammingball',
                         'randomwalk', 'blockgibbs', 'dmala']), min_size=1,
        max_size=4)), seed=draw(st.integers(0, 10**6)))
  return strat()


def _window_errors(x, p, size, stride):
  """Mean squared error of the windowed chain means, from the definition."""
  out, start = [], 0
  while start + size <= len(x):
    m = x[start:start + size].astype(np.float64).mean(0)
    out.append(((m - p) ** 2).mean())
    start += stride
  return np.array(out)


def check_mixing(case):
  """The curve of estimation error along each chain, drawn in three ways."""
  import os
  import jax.numpy as jnp
  import pickle
  from absl import flags
  from discs.common import configs as common_configs
  from discs.common import experiment_saver
  from discs.evaluators import bernoulli_eval
  from discs.models import bernoulli
  from vp import exper
  from vp.props import c31
  how, n, B = case['how'], case['n'], case['B']
  r = core.rng_of('mix', case['seed'])
  size, stride = (10, 10) if how == 'script' else (case['size'], case['stride'])
  runs = {}
  for name, T in zip(case['names'], case['T']):
    th = (r.normal(size=n) * case['scale']).astype(np.float32)
    runs[name] = th, r.integers(0, 2, size=(T, B, n)).astype(np.int32)
  with exper.scratch() as d, c31.Figures() as figs:
    cfg = common_configs.get_config()
    cfg.model.update(dict(name='bernoulli', shape=(n,), init_sigma=1.0,
                          num_categories=2))
    cfg.experiment.update(dict(window_size=size, window_stride=stride,
                               save_root=os.path.join(d, 'out')))
    model = bernoulli.build_model(cfg)
    saver = experiment_saver.build_saver(cfg)
    if how == 'script':
      script = c31.load_script('plot_estimation_error')
      for i, (name, (th, x)) in enumerate(runs.items()):
        cfg.experiment.save_root = os.path.join(
            d, 'in', "%d_sampler_config.name='%s'" % (i, name))
        s = experiment_saver.build_saver(cfg)
        s.dump_samples([jnp.asarray(v) for v in x])
        s.dump_params(jnp.asarray(th))
      old = os.getcwd(), flags.FLAGS.gcs_results_path
      os.chdir(d)
      try:
        flags.FLAGS.gcs_results_path = 'in'
        script.main(['x'])
      finally:
        os.chdir(old[0])
        flags.FLAGS.gcs_results_path = old[1]
    elif how == 'saver':
      (name, (th, x)), = list(runs.items())[:1]
      runs = {name: (th, x)}
      saver.config.sampler.update(dict(name=name))
      saver.plot_estimation_error(model, dict(params=jnp.asarray(th)),
                                  jnp.asarray(x))
    else:
      ev = bernoulli_eval.build_evaluator(cfg)
      ev.plot_mixing_time_graph_over_chain(
          os.path.join(d, 'out'), model,
          [dict(params=jnp.asarray(th)) for th, _ in runs.values()],
          [jnp.asarray(x) for _, x in runs.values()], list(runs))
  core.require(len(figs.saved) == 1, '%d pictures: %s', len(figs.saved),
               [f[0] for f in figs.saved])
  lines = [l for a in figs.saved[0][1] for l in a['lines']]
  core.require(sorted(l[0] for l in lines) == sorted(runs), 'the curves are '
               'labelled %s for the runs %s', [l[0] for l in lines],
               sorted(runs))
  for name, xs, ys in lines:
    th, x = runs[name]
    want = _window_errors(x, 1 / (1 + np.exp(-th.astype(np.float64))), size,
                          stride)
    core.require(np.array_equal(xs, 1 + np.arange(len(want))), 'the curve of '
                 '%s has its %d windows at %s', name, len(want), xs)
    core.require(np.allclose(ys, want, rtol=1e-3, atol=1e-6), 'the estimation '
                 'error of %s is drawn as %s, by definition %s (window %d, '
                 'stride %d)', name, ys, want, size, stride)
  return how, len(lines) > 1 or how == 'saver'


def _mix():
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    names = draw(st.lists(st.sampled_from(['gwg', 'dmala', 'dlmc', 'gibbs']),
                          min_size=1, max_size=3, unique=True))
    return dict(how=draw(st.sampled_from(['direct', 'script', 'saver'])),
                names=names, n=draw(st.integers(1, 5)),
                B=draw(st.integers(1, 4)), size=draw(st.integers(2, 12)),
                stride=draw(st.integers(1, 6)),
                scale=draw(st.sampled_from([0.1, 1.0, 4.0])),
                T=[draw(st.integers(1, 45)) for _ in names],
                seed=draw(st.integers(0, 10**6)))
  return strat()


STRATA = [
    core.Stratum('bernoulli', _bern, check_bernoulli, 80, 3000),
    core.Stratum('partition', _part, check_partition, 800, 30000),
    core.Stratum('bernoulli-large', lambda: _bern(True), check_bernoulli, 16, 200),
    core.Stratum('partition-large', lambda: _part(30, 80), check_partition, 64,
                 1000),
    core.Stratum('report', _rep, check_report, 160, 4000),
    core.Stratum('mixing', _mix, check_mixing, 96, 3000),
]
RULE = ('bernoulli: generated parameters and sample arrays against numpy '
        'moments. partition: a generated graph and partition (empty groups '
        'allowed), dense or sparse, against edge counting, and again with '
        'groups and nodes renumbered. report: saved results of 1-4 runs on a '
        'graph file with shuffled node order. mixing: the curves '
        'of windowed estimation error of 1-3 chains, drawn by the evaluator, '
        'the saver or the plot script from saved samples. Non-trivial: several variables; '
        'some but not all edges cut.')
ASSUMPTIONS = ['At least two steps and two chains; graphs have an edge and '
               'unit weights.']
