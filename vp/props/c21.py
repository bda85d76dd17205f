"""C21: random graph generation and the configuration-string parser."""
import random

import numpy as np

from vp import core, comb


def WARM():
  comb.warm()


def check_gen(case):
  import networkx as nx
  from discs.graph_loader import common
  np.random.seed(case['seed'])
  random.seed(case['seed'])
  kw = dict(case['kw'])
  lo, hi = case['min_n'], case['max_n']
  weights, sizes, made = [], [], 0
  for _ in range(case['reps']):
    g = common.gen_connected(case['g_type'], lo, hi, **kw)
    if g is None:
      # gives up after 20 tries: only plausible when a graph of at least
      # min_n connected nodes is unlikely
      core.require(case['sparse'], 'no graph was generated although almost '
                   'every draw is large enough')
      continue
    made += 1
    n = g.number_of_nodes()
    core.require(lo <= n <= hi, 'a graph with %d nodes was generated for '
                 '[%d, %d]', n, lo, hi)
    core.require(sorted(g.nodes()) == list(range(n)), 'nodes are labelled %s',
                 sorted(g.nodes()))
    core.require(nx.is_connected(g), 'the generated graph is not connected')
    core.require(not any(u == v for u, v in g.edges()), 'self-loop')
    sizes.append(n)
    if case['g_type'] == 'barabasi_albert':
      m = kw['ba_m']
      core.require(g.number_of_edges() == m * (n - m), 'a preferential '
                   'attachment graph with %d nodes and m=%d has %d edges', n, m,
                   g.number_of_edges())
    if 'w_type' in kw:
      for u, v, d in g.edges(data=True):
        core.require('weight' in d, 'edge %s has no weight', (u, v))
        w = d['weight']
        core.require(np.isfinite(w), 'edge weight %r', w)
        weights.append(float(w))
        if kw['w_type'] == 'int':
          core.require(float(w) == int(w) and int(kw['w_min']) <= w < int(
              kw['w_max']), 'integer weight %r outside [%s, %s)', w,
                       kw['w_min'], kw['w_max'])
        elif kw['w_type'] == 'uniform':
          core.require(kw['w_min'] <= w <= kw['w_max'], 'weight %r outside '
                       '[%s, %s]', w, kw['w_min'], kw['w_max'])
  w = np.array(weights)
  if len(w) > 100:
    t = kw['w_type']
    if t == 'normal':
      mean, var = kw['w_mean'], kw['w_std'] ** 2
      k4 = 3 * var ** 2
    elif t == 'uniform':
      mean, var = (kw['w_min'] + kw['w_max']) / 2, (kw['w_max'] - kw['w_min']) ** 2 / 12
      k4 = (kw['w_max'] - kw['w_min']) ** 4 / 80
    else:
      vals = np.arange(int(kw['w_min']), int(kw['w_max']))
      mean, var = vals.mean(), vals.var()
      k4 = ((vals - mean) ** 4).mean()
    m = len(w)
    core.require(abs(w.mean() - mean) <= 6.5 * np.sqrt(var / m) + 1e-6,
                 '%s weights have mean %.4f over %d edges, expected %.4f', t,
                 w.mean(), m, mean)
    core.require(abs(((w - mean) ** 2).mean() - var) <= 7 * np.sqrt(
        max(k4 - var ** 2, 0) / m) + 1e-6 + 30 * var / m,
                 '%s weights have variance %.4f, expected %.4f', t,
                 ((w - mean) ** 2).mean(), var)
  if case['g_type'] == 'barabasi_albert' and made >= 60 and hi > lo:
    # sizes are spread over the whole range, both ends included
    cnt = np.bincount(np.array(sizes) - lo, minlength=hi - lo + 1)
    p = 1 / (hi - lo + 1)
    z = np.abs(cnt - made * p) / np.sqrt(made * p * (1 - p))
    core.require(z.max() < 6.5 or (cnt > 0).all(), 'sizes in [%d, %d] are drawn'
                 ' %s times', lo, hi, cnt.tolist())
  return '%s%s' % (case['g_type'], '-' + kw['w_type'] if 'w_type' in kw else
                   ''), made > 0


def check_unknown(case):
  from discs.graph_loader import common
  np.random.seed(case['seed'])
  err = False
  try:
    common.gen_connected(case['g_type'], 3, 6, **case['kw'])
  except ValueError:
    err = True
  core.require(err, 'an unknown graph or weight type is not rejected')
  return 'rejected'


def check_hopeless(case):
  """A request that no draw can meet ends without a graph."""
  from discs.graph_loader import common
  np.random.seed(case['seed'])
  random.seed(case['seed'])
  g = common.gen_connected('erdos_renyi', case['lo'], case['lo'] + case['d'],
                           er_p=case['p'])
  core.require(g is None, 'a graph of %d connected nodes came out of a density '
               'of %g', 0 if g is None else len(g), case['p'])
  return 'gave up'


def hopeless_strategy():
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      lo=st.integers(30, 60), d=st.integers(0, 5), p=st.sampled_from(
          [0.0, 1e-6]), seed=st.integers(0, 10**6)))


def gen_strategy():
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    gt = draw(st.sampled_from(['erdos_renyi', 'barabasi_albert']))
    kw = {}
    sparse = False
    if gt == 'erdos_renyi':
      lo = draw(st.integers(1, 14))
      hi = lo + draw(st.integers(0, 8))
      kw['er_p'] = draw(st.sampled_from([0.15, 0.3, 0.6, 0.9, 0.08]))
      sparse = kw['er_p'] < 0.9 or lo < 12
    else:
      kw['ba_m'] = draw(st.integers(1, 4))
      lo = draw(st.integers(kw['ba_m'] + 1, 16))
      hi = lo + draw(st.integers(0, 6))
    t = draw(st.sampled_from([None, 'int', 'uniform', 'normal']))
    if t:
      kw['w_type'] = t
      if t == 'normal':
        kw['w_mean'] = draw(st.sampled_from([0.0, 1.0, -2.0]))
        kw['w_std'] = draw(st.sampled_from([1.0, 0.3]))
      else:
        kw['w_min'] = draw(st.sampled_from([0, -5, 1]))
        kw['w_max'] = kw['w_min'] + draw(st.sampled_from([1, 2, 10]))
        if t == 'uniform':
          kw['w_min'], kw['w_max'] = float(kw['w_min']), kw['w_max'] + 0.5
        elif draw(st.booleans()):
          kw['w_min'], kw['w_max'] = str(kw['w_min']), str(kw['w_max'])
    return dict(g_type=gt, min_n=lo, max_n=hi, kw=kw, sparse=sparse,
                reps=draw(st.sampled_from([5, 60])),
                seed=draw(st.integers(0, 2**31 - 1)))
  return strat()


def unknown_strategy():
  from hypothesis import strategies as st
  word = st.text('abcdefgh', min_size=1, max_size=6)
  return st.one_of(
      st.builds(lambda w, s: dict(g_type='x' + w, kw={}, seed=s), word,
                st.integers(0, 1000)),
      st.builds(lambda w, s: dict(g_type='barabasi_albert', seed=s, kw=dict(
          ba_m=1, w_type='x' + w)), word, st.integers(0, 1000)))


def check_parse(case):
  from discs.common import utils
  pairs = case['pairs']
  text = ','.join(k + '-' + v for k, v in pairs)
  got = utils.parse_cfg_str(text)
  want = dict((k, v) for k, v in pairs)
  core.require(dict(got) == want, '%r is read as %r, expected %r', text,
               dict(got), want)
  return 'dashes' if any('-' in v for _, v in pairs) else 'plain', \
      len(pairs) > 1


def parse_strategy():
  from hypothesis import strategies as st
  key = st.text('abcnrwz_09', min_size=1, max_size=5)
  val = st.text('abz019._-', min_size=1, max_size=10)
  return st.builds(lambda p: dict(pairs=[list(t) for t in p]), st.lists(
      st.tuples(key, val), min_size=1, max_size=5, unique_by=lambda t: t[0]))


STRATA = [core.Stratum('generate', gen_strategy, check_gen, 600, 30000),
          core.Stratum('unknown', unknown_strategy, check_unknown, 60, 500),
          core.Stratum('hopeless', hopeless_strategy, check_hopeless, 40, 400),
          core.Stratum('parse', parse_strategy, check_parse, 2000, 100000)]
RULE = ('generate: graph family, size range, density, weight kind and range, 5 '
        'or 60 graphs per case with a seeded generator; non-trivial: a graph '
        'was produced. hopeless: '
        'sizes that the density cannot give; the generator gives up. parse: 1-5 key-value pairs, values with dashes; '
        'non-trivial: several pairs.')
ASSUMPTIONS = ['A generator that gives up (None) is accepted only where '
               'connected graphs of the minimum size are not near certain.']
