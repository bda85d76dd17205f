"""C19: graph loaders deliver every instance once, in order, fully padded."""
import numpy as np

from vp import core, comb

WARM = comb.warm


def _edges_of(params):
  """Undirected weighted edge list a params dict encodes."""
  m = np.asarray(params['edge_mask']).astype(bool)
  u, v = np.asarray(params['edge_from'])[m], np.asarray(params['edge_to'])[m]
  w = np.asarray(params['edge_weight'])[m] if 'edge_weight' in params else \
      np.ones(len(u))
  out = {}
  for a, b, c in zip(u.tolist(), v.tolist(), w.tolist()):
    k = (min(a, b), max(a, b))
    core.require(k not in out, 'edge %s appears twice', k)
    out[k] = c
  return out


def _sig(params):
  return sorted((k, np.shape(v)) for k, v in params.items() if v is not None)


def check(case):
  with comb.Dataset(case) as ds:
    loader = ds.loader()
    exp = ds.expected
    core.require(loader.num_instances == len(exp), '%s announces %d instances, '
                 '%d are stored', ds.kind, loader.num_instances, len(exp))
    core.require(loader.max_num_nodes >= ds.true_nodes and
                 loader.max_num_edges >= ds.true_edges,
                 '%s announces %d nodes / %d edges, an instance has %d / %d',
                 ds.kind, loader.max_num_nodes, loader.max_num_edges,
                 ds.true_nodes, ds.true_edges)
    if case.get('slack') is None:
      core.require(loader.max_num_nodes == ds.true_nodes,
                   '%s announces %d nodes, the largest instance has %d',
                   ds.kind, loader.max_num_nodes, ds.true_nodes)
    bs = case['num_models']
    total = -(-len(exp) // bs)
    for rep in range(2):               # a fresh iterator starts over
      batches = []
      it = loader.get_iterator('test', bs, **(
          {'sharding': True} if case['sharding'] else {}))
      for b in it:
        batches.append(b)
        core.require(len(batches) <= total, '%s: more than %d batches of %d '
                     'for %d instances', ds.kind, total, bs, len(exp))
      core.require(len(batches) == total, '%s: %d batches of %d for %d '
                   'instances', ds.kind, len(batches), bs, len(exp))
      for b in batches:
        core.require(len(b) == bs, '%s: a batch has %d instances instead of %d',
                     ds.kind, len(b), bs)
      flat = [x for b in batches for x in b]
      ids = [int(i) for i, _, _ in flat]
      want = list(range(len(exp))) + [-1] * (total * bs - len(exp))
      core.require(ids == want, '%s: instance numbers are %s, expected %s',
                   ds.kind, ids, want)
      sig = None
      for i, params, ref in flat:
        s = _sig(params)
        if sig is None:
          sig = s
        core.require(s == sig, '%s: instance %d has array shapes %s, others '
                     '%s', ds.kind, i, s, sig)
        if i < 0:
          continue
        n, edges, r = exp[i]
        core.require(abs(float(ref) - float(r)) < 1e-6, '%s: instance %d has '
                     'reference value %r, stored is %r', ds.kind, i, ref, r)
        got = _edges_of(params)
        core.require(set(got) == set(edges), '%s: instance %d has edges %s, '
                     'stored %s', ds.kind, i, sorted(got), sorted(edges))
        for k, w in edges.items():
          core.require(abs(got[k] - w) <= 1e-5 * (1 + abs(w)), '%s: edge %s of '
                       'instance %d has weight %r, stored %r', ds.kind, k, i,
                       got[k], w)
        if params.get('mask') is not None:
          mask = np.asarray(params['mask']).astype(bool)
          core.require(mask.shape == (loader.max_num_nodes,) and
                       (mask == (np.arange(len(mask)) < n)).all(),
                       '%s: the mask of instance %d (%d nodes) is %s', ds.kind,
                       i, n, mask.tolist())
        if 'num_nodes' in params:
          core.require(int(params['num_nodes']) == n, '%s: instance %d reports '
                       '%s nodes instead of %d', ds.kind, i,
                       params['num_nodes'], n)
        if 'num_edges' in params:
          core.require(int(np.asarray(params['num_edges']).reshape(())) ==
                       len(edges), '%s: instance %d reports %s edges instead '
                       'of %d', ds.kind, i, params['num_edges'], len(edges))
        if 'node_degrees' in params:
          deg = np.zeros(loader.max_num_nodes)
          deg[:n] = comb.degrees(n, edges)
          core.require(np.array_equal(np.asarray(params['node_degrees']), deg),
                       '%s: node degrees of instance %d are %s, expected %s',
                       ds.kind, i, np.asarray(params['node_degrees']).tolist(),
                       deg.tolist())
    # the model's own stream is the same one
    model, cfg = ds.model()
    ids2 = [int(i) for i, _, _ in ds.instances(model)]
    core.require(ids2 == want, '%s: the model serves instances %s, expected '
                 '%s', ds.kind, ids2, want)
    core.require(cfg.model.max_num_nodes == loader.max_num_nodes and
                 cfg.model.max_num_edges == loader.max_num_edges and
                 tuple(cfg.model.shape) == (loader.max_num_nodes,),
                 '%s: the model configuration got sizes %s / %s / %s', ds.kind,
                 cfg.model.max_num_nodes, cfg.model.max_num_edges,
                 cfg.model.shape)
    dummies = total * bs - len(exp)
    label = '%s%s' % (ds.kind, '+dummy' if dummies else '')
    return label, len(exp) > 1 or dummies > 0


def check_procs(case):
  """Several processes share the instances without loss or overlap."""
  import jax
  with comb.Dataset(case) as ds:
    np_, bs = case['procs'], case['procs'] * case['num_models']
    exp = ds.expected
    total = -(-len(exp) // bs)
    seen, old = [], (jax.process_index, jax.process_count)
    for rank in range(np_):
      try:
        jax.process_index = lambda *a, rank=rank: rank
        jax.process_count = lambda *a: np_
        batches = []
        for b in ds.loader().get_iterator('test', bs, sharding=True):
          batches.append(b)
          core.require(len(batches) <= total, 'process %d gets more than %d '
                       'batches', rank, total)
      finally:
        jax.process_index, jax.process_count = old
      core.require(len(batches) == total and all(
          len(b) == case['num_models'] for b in batches),
                   'process %d gets batches of sizes %s, expected %d of %d',
                   rank, [len(b) for b in batches], total, case['num_models'])
      ids = [int(i) for b in batches for i, _, _ in b]
      real = [i for i in ids if i >= 0]
      core.require(real == sorted(real) and ids == real + [-1] * (
          len(ids) - len(real)), 'process %d is served %s', rank, ids)
      seen += real
      for i, params, ref in [x for b in batches for x in b]:
        if i >= 0:
          core.require(set(_edges_of(params)) == set(exp[i][1]),
                       'process %d: instance %d is not the stored one', rank, i)
    core.require(sorted(seen) == list(range(len(exp))), 'the %d processes '
                 'together get instances %s of %d', np_, sorted(seen), len(exp))
    return '%s-%d' % (ds.kind, np_), len(exp) > 1


class TextFiles:
  """The ten instance files the text loader reads, in a scratch folder."""

  NAMES = ['sg3dl05%d000.mc' % i for i in range(1, 11)]

  def __init__(self, case):
    import os
    import tempfile
    r = core.rng_of('mc', case['seed'])
    self.root = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH', '/tmp'))
    os.makedirs(os.path.join(self.root, 'optsicom'))
    self.graphs = []
    for i in r.permutation(10):
      n = int(r.integers(2, case['n'] + 1))
      perm = [int(v) for v in r.permutation(n)]
      e = {}
      for a, b in zip(perm, perm[1:]):              # no isolated vertex
        e[min(a, b), max(a, b)] = int(r.integers(-3, 4))
      for _ in range(int(r.integers(0, 2 * n))):
        a, b = sorted(int(v) for v in r.integers(0, n, size=2))
        if a != b:
          e[a, b] = int(r.integers(-3, 4))
      items = list(e.items())
      rows = []
      for j in r.permutation(len(items)):
        (a, b), w = items[j]
        if r.random() < 0.5:
          a, b = b, a
        rows.append('%d %d %d' % (a + 1, b + 1, w))
      with open(os.path.join(self.root, 'optsicom', self.NAMES[i]), 'w') as f:
        f.write('%d %d\n%s\n' % (n, len(rows), '\n'.join(rows)))
      self.graphs.append((int(i), n, {k: float(w) for k, w in e.items()}))
    self.graphs = [g[1:] for g in sorted(self.graphs, key=lambda g: g[0])]
    self.file = os.path.join(self.root, 'maxcut_loader.py')

  def __enter__(self):
    from unittest import mock
    from discs.graph_loader import maxcut_loader
    self.patch = mock.patch.object(maxcut_loader, '__file__', self.file)
    self.patch.start()
    return self

  def __exit__(self, *a):
    import shutil
    self.patch.stop()
    shutil.rmtree(self.root, ignore_errors=True)


def check_text(case):
  """Instances in the text format: the stored graphs, in file order."""
  from ml_collections import config_dict
  from discs.graph_loader import graph_gen
  with TextFiles(case) as files:
    loader = graph_gen.get_graphs(config_dict.ConfigDict(dict(model=dict(
        graph_type='optsicom', rand_type=case['rand']))))
    exp, bs = files.graphs, case['num_models']
    core.require((loader.num_instances, loader.max_num_nodes,
                  loader.max_num_edges) ==
                 (10, max(n for n, _ in exp), max(len(e) for _, e in exp)),
                 'announced %s instances, %s nodes, %s edges',
                 loader.num_instances, loader.max_num_nodes,
                 loader.max_num_edges)
    total = -(-10 // bs)
    batches = []
    for b in loader.get_iterator('test', bs):
      batches.append(b)
      core.require(len(batches) <= total and len(b) == bs,
                   'batch %d has %d instances', len(batches), len(b))
    flat = [x for b in batches for x in b]
    ids = [int(i) for i, _, _ in flat]
    core.require(ids == list(range(10)) + [-1] * (total * bs - 10),
                 'instance numbers %s', ids)
    for i, params, ref in flat[:10]:
      core.require(float(ref) == 1.0, 'reference value %r', ref)
      core.require(_edges_of(params) == exp[i][1], 'instance %d has edges %s, '
                   'the file %s', i, _edges_of(params), exp[i][1])
    core.require(len({str(_sig(p)) for _, p, _ in flat}) == 1,
                 'array shapes differ between instances')
    # the same topology under random weights
    np.random.seed(case['seed'] % 2**31)
    bias = 1.0 if len(case['rand']) > 1 and case['rand'][-1] == 'b' else 0.0
    kind = case['rand'][:-1] if bias else case['rand']
    shift = []
    for i in range(10):
      g = loader.gen_graph(i, rand_weight=True)
      got = {(min(u, v), max(u, v)): d['weight']
             for u, v, d in g.edges(data=True)}
      core.require(set(got) == set(exp[i][1]), 'random weights changed the '
                   'edges of instance %d', i)
      for k, w in got.items():
        if kind == 'b':
          core.require(w - bias in (-1.0, 1.0), 'weight %r of the sign kind, '
                       'bias %g', w, bias)
          shift.append(w - bias)
        else:
          shift.append((w - bias - exp[i][1][k]) / float(kind))
    m = len(shift)
    core.require(abs(np.mean(shift)) < 6.5 / np.sqrt(m) and
                 abs(np.mean(np.square(shift)) - 1) < 7 * np.sqrt(2 / m) + 30 / m,
                 'noise of %d edges has mean %.3f and second moment %.3f', m,
                 np.mean(shift), np.mean(np.square(shift)))
    core.require([(len(loader.graphs[i]), loader.graphs[i].size())
                  for i in range(10)] == [(n, len(e)) for n, e in exp],
                 'drawing weights changed the stored graphs')
  return 'bias' if bias else 'plain', True


def _text():
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      n=st.integers(2, 20), rand=st.sampled_from(['0.1', '2.0', '0.5b', 'bb']),
      num_models=st.integers(1, 11), seed=st.integers(0, 10**9)))


def _fix(case):
  """Dummies are two-node graphs: keep at least that much room."""
  for g in case['graphs']:
    if 'clauses' in g:
      continue
  if case['kind'] not in ('satlib', 'nets', 'gap_rand') and not any(
      g['edges'] for g in case['graphs']):
    g = case['graphs'][0]
    while g['n'] < 2:
      g['order'].append(g['n'])
      g['n'] += 1
    g['edges'] = [[0, 1, 1.0]]
  return case


def _mk(kinds, top=7, **kw):
  def f():
    from hypothesis import strategies as st
    return st.builds(lambda c, m, s: _fix(dict(c, num_models=m, sharding=s)),
                     comb.draw_dataset(kinds, **dict(dict(g_hi=6), **kw)),
                     st.integers(1, top), st.booleans())
  return f


def _procs():
  from hypothesis import strategies as st
  return st.builds(lambda c, m, p: _fix(dict(c, num_models=m, procs=p)),
                   comb.draw_dataset(list(comb.KINDS), g_hi=7),
                   st.integers(1, 3), st.integers(2, 4))


STRATA = [core.Stratum('optsicom-text', _text, check_text, 120, 4000)] + [
    core.Stratum(k, _mk((k,)), check, 120, 4000, shards=4)
    for k in comb.KINDS] + [
              core.Stratum('processes', lambda: _procs(), check_procs, 120,
                           4000, shards=4),
              core.Stratum('many', _mk(tuple(comb.KINDS), top=18, g_lo=10,
                                       g_hi=26, files_hi=13, n_hi=5), check,
                           120, 1500, shards=8),
              core.Stratum('large', _mk(tuple(comb.KINDS), n_lo=30, n_hi=90,
                                        g_hi=3, nv=(8, 14), clauses=40), check,
                           64, 600, shards=8)]
RULE = ('A case is a dataset of 1-6 generated graphs (CNF formulas for '
        'satlib) written in a loader\'s file layout, split over 1-3 files '
        'written in random order with decoy files beside them, with computed '
        'or announced sizes, read at batch size 1-7 through the iterator '
        '(twice) and through the model; '
        'optsicom-text: ten generated instances in the text format, and the '
        'same graphs under random weights; many: 10-26 instances over up to 13 '
        'files; large: 30-90 nodes. Non-trivial: several instances or '
        'dummies.')
ASSUMPTIONS = ['Several processes are simulated by replacing '
               'jax.process_index / process_count.',
               'Some instance has an edge (dummy graphs have one).',
               'Normalised-cut graphs of one dataset have equal node counts.']
