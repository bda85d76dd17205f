"""Combinatorial models on real loader files, with independent oracles.

A dataset case: dict(kind, graphs=[{n, edges:[[u,v,w]], order:[..], ref}],
files (how graphs are split over files), slack (announced sizes beyond the
data), pen/stype/K for models).  `Dataset(case)` writes the files in the layout
the loader of that kind reads, into the worker's scratch directory.
"""
import os
import pickle
import shutil
import tempfile

import numpy as np

from vp import core

KINDS = {
    # kind: (model, weighted, graph_type, rand_type)
    'ba': ('maxcut', True, 'ba', '4'),
    'er': ('maxcut', True, 'er', '0.15'),
    'optsicom': ('maxcut', True, 'optsicom', 'b'),
    'ertest': ('mis', False, 'ertest', '800'),
    'er_density': ('mis', False, 'er_density', '0.10'),
    'satlib': ('mis', False, 'satlib', ''),
    'rb': ('maxclique', False, 'rb', ''),
    'twitter': ('maxclique', False, 'twitter', ''),
    'nets': ('normcut', False, 'nets', 'NET'),
    'gap_rand': ('normcut', False, 'gap_rand', 'test-9'),
}


def warm():
  import importlib
  import jax  # noqa: F401
  import networkx  # noqa: F401
  for n in ('maxcut', 'mis', 'maxclique', 'normcut'):
    importlib.import_module('discs.models.%s' % n)


def to_nx(g, weighted):
  import networkx as nx
  out = nx.Graph()
  out.add_nodes_from(g['order'])
  for u, v, w in g['edges']:
    if weighted:
      out.add_edge(u, v, weight=w)
    else:
      out.add_edge(u, v)
  return out


def cnf_graph(clauses):
  """Textbook 3-SAT -> independent set: triangle per clause + conflicts."""
  edges = set()
  lits = [(3 * i + j, l) for i, c in enumerate(clauses)
          for j, l in enumerate(c)]
  for i in range(len(clauses)):
    for a, b in ((0, 1), (0, 2), (1, 2)):
      edges.add((3 * i + a, 3 * i + b))
  for a, la in lits:
    for b, lb in lits:
      if a < b and la == -lb:
        edges.add((a, b))
  return 3 * len(clauses), edges


def write_cnf(path, nv, clauses):
  """Plain DIMACS, or with the quirks of the SATLIB files."""
  quirks = core.int_hash('cnf', nv, clauses) % 2
  with open(path, 'w') as f:
    f.write('c generated\nc \np cnf %d  %d \n' % (nv, len(clauses))
            if quirks else
            'c generated\np cnf %d %d\n' % (nv, len(clauses)))
    for c in clauses:
      f.write(' ' * quirks + ' '.join(map(str, c)) + ' 0\n')
    if quirks:
      f.write('%\n0\n\n')


class Dataset:
  """Files on disk plus what a loader must deliver from them."""

  def __init__(self, case):
    self.case = case
    self.kind = case['kind']
    self.model_name, self.weighted, self.graph_type, self.rand_type = KINDS[
        self.kind]
    self.root = tempfile.mkdtemp(prefix='ds-',
                                 dir=os.environ.get('VP_SCRATCH', '/tmp'))
    self.graphs = list(case['graphs'])
    self.expected = []            # (n, {(u,v): w}, ref) in delivery order
    self._write()

  def close(self):
    shutil.rmtree(self.root, ignore_errors=True)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()

  def _dir(self, *parts):
    d = os.path.join(self.root, *parts)
    os.makedirs(d, exist_ok=True)
    return d

  def _chunks(self):
    """Graphs grouped per file, in delivery order; files get sorted names."""
    k = max(1, min(self.case.get('files', 1), len(self.graphs)))
    cuts = np.linspace(0, len(self.graphs), k + 1).astype(int)
    return [self.graphs[a:b] for a, b in zip(cuts[:-1], cuts[1:])]

  def _emit(self, items):
    """items: [(path, writer)] written in shuffled order (mtime/inode order)."""
    r = core.rng_of('emit', self.case['seed'])
    for i in r.permutation(len(items)):
      items[i][1](items[i][0])

  def _add(self, g, ref):
    e = {}
    for u, v, w in g['edges']:
      e[(min(u, v), max(u, v))] = w if self.weighted else 1.0
    self.expected.append((g['n'], e, ref))

  def _write(self):
    kind, w = self.kind, self.weighted
    items = []
    if kind in ('ba', 'er', 'optsicom'):
      if kind == 'optsicom':
        d, names = self._dir('optsicom'), ['b.pkl']
        chunks = [self.graphs]
      else:
        d = self._dir('maxcut-%s' % self.graph_type,
                      'maxcut-%s' % self.rand_type)
        chunks = self._chunks()
        names = ['test-%03d.pkl' % i for i in range(len(chunks))]
        with open(os.path.join(d, 'train-000.pkl'), 'wb') as f:
          pickle.dump((to_nx(self.graphs[0], w), [123.0]), f)
      for name, ch in zip(names, chunks):
        def wr(path, ch=ch):
          with open(path, 'wb') as f:
            for g in ch:
              pickle.dump((to_nx(g, w), [g['ref'], [0] * g['n']]), f)
        items.append((os.path.join(d, name), wr))
        for g in ch:
          self._add(g, g['ref'])
    elif kind == 'ertest':
      d = self._dir('er_%s_test' % self.rand_type)
      for i, g in enumerate(self.graphs):
        def wr(path, g=g):
          x = to_nx(g, w)
          for node in list(x.nodes())[:int(g['ref'])]:
            x.nodes[node]['label'] = 1
          with open(path, 'wb') as f:
            pickle.dump(x, f)
        items.append((os.path.join(d, 'ER_%03d.gpickle' % i), wr))
        self._add(g, max(1, min(int(g['ref']), g['n'])))
      with open(os.path.join(d, 'README'), 'w') as f:
        f.write('decoy')
    elif kind == 'er_density':
      d = self._dir('er_700_800')
      with open(os.path.join(d, 'ER-700-800-%s.pkl' % self.rand_type),
                'wb') as f:
        pickle.dump([to_nx(g, w) for g in self.graphs], f)
      for g in self.graphs:
        self._add(g, 1)
    elif kind == 'satlib':
      d = self._dir('satlib_test')
      for i, g in enumerate(self.graphs):
        n, edges = cnf_graph(g['clauses'])
        items.append((os.path.join(d, 'f%03d.cnf' % i),
                      lambda p, g=g: write_cnf(p, g['nv'], g['clauses'])))
        self.expected.append((n, {e: 1.0 for e in edges}, 1.0))
    elif kind in ('rb', 'twitter'):
      d = self._dir('RB_test' if kind == 'rb' else 'twitter')
      pre = 'RB' if kind == 'rb' else 'twitter'
      for i, ch in enumerate(self._chunks()):
        def wr(path, ch=ch):
          gs = [to_nx(g, w) for g in ch]
          refs = [g['ref'] for g in ch]
          with open(path, 'wb') as f:
            pickle.dump(list(zip(refs, gs)) if kind == 'rb' else (gs, refs), f)
        items.append((os.path.join(d, '%s_%03d.pkl' % (pre, i)), wr))
        for g in ch:
          self._add(g, g['ref'])
      with open(os.path.join(d, 'other.txt'), 'w') as f:
        f.write('decoy')
    elif kind == 'nets':
      d = self._dir('nets')
      with open(os.path.join(d, self.rand_type + '.pkl'), 'wb') as f:
        pickle.dump(to_nx(self.graphs[0], w), f)
      self._add(self.graphs[0], 1.0)
    elif kind == 'gap_rand':
      d = self._dir('gap_rand', self.rand_type)
      for i, g in enumerate(self.graphs):
        def wr(path, g=g):
          with open(path, 'wb') as f:
            pickle.dump(to_nx(g, w), f)
        items.append((os.path.join(d, 'g%03d.pkl' % i), wr))
        self._add(g, 1.0)
      with open(os.path.join(d, 'notes.txt'), 'w') as f:
        f.write('decoy')
    self._emit(items)

  # ------------------------------------------------------------- sizes
  @property
  def true_nodes(self):
    return max(n for n, _, _ in self.expected)

  @property
  def true_edges(self):
    return max(len(e) for _, e, _ in self.expected)

  def config(self):
    """The run configuration the repository's experiments build."""
    from ml_collections import config_dict
    import importlib
    c = self.case
    base = importlib.import_module(
        'discs.models.configs.%s_config' % self.model_name).get_config()
    m = base.to_dict()
    slack = c.get('slack')
    announce = slack is not None or self.kind == 'gap_rand'
    sl = slack or [0, 0]
    m.update(graph_type=self.graph_type, rand_type=self.rand_type,
             data_root=self.root, num_models=c['num_models'],
             max_num_nodes=self.true_nodes + sl[0] if announce else 0,
             max_num_edges=max(1, self.true_edges + sl[1]) if announce else 0,
             num_instances=len(self.expected) if announce else 0,
             num_categories=c.get('K', 2), shape=(0,))
    for k in ('penalty', 'stype', 'tolerance'):
      if c.get(k) is not None:
        m[k] = c[k]
    return config_dict.ConfigDict(dict(model=m))

  def loader(self):
    from discs.graph_loader import graph_gen
    return graph_gen.get_graphs(self.config())

  def model(self):
    """(model, config) after the model's own set-up."""
    import importlib
    cfg = self.config()
    mod = importlib.import_module('discs.models.%s' % self.model_name)
    return mod.build_model(cfg), cfg

  def instances(self, model, limit=100):
    """[(idx, params, ref)] of all batches, flattened."""
    out = []
    for _ in range(limit):
      b = model.make_init_params(None)
      if b is None:
        return out
      out.extend(b)
    raise core.Violation('the instance stream of %r never ends' % self.kind)


# --------------------------------------------------------------- oracles
def maxcut_value(edges, x):
  return sum(w for (u, v), w in edges.items() if x[u] != x[v])


def mis_value(n, edges, x, pen):
  return float(sum(x[:n])) - pen * sum(x[u] and x[v] for u, v in edges)


def clique_value(n, edges, x, pen):
  s = [i for i in range(n) if x[i]]
  need = len(s) * (len(s) - 1) / 2
  have = sum(1 for i, u in enumerate(s) for v in s[i + 1:]
             if (u, v) in edges)
  return float(len(s)) - pen * (need - have)


def normcut_value(n, total, edges, x, K, pen, stype, tol, deg):
  eps = 1e-8
  cut = np.zeros(K)
  for u, v in edges:
    if x[u] != x[v]:
      cut[x[u]] += 1
      cut[x[v]] += 1
  if pen > 0:
    size = np.bincount(x, minlength=K).astype(float)
    avg = total / K
    if stype == 'quad':
      cost = ((size - avg) ** 2).sum()
    else:
      t = total * tol
      cost = (np.maximum(size - avg - t, 0) ** 2
              + np.maximum(avg - t - size, 0) ** 2).sum()
    return -(cut.sum() + pen * cost)
  vol = np.zeros(K)
  for i, d in enumerate(deg):
    vol[x[i]] += d
  return -((cut + eps) / (vol + eps ** 2)).sum()


def degrees(n, edges):
  d = np.zeros(n)
  for u, v in edges:
    d[u] += 1
    d[v] += 1
  return d


def objective(ds, inst, x, total, pen=None):
  """The written definition of the score, for one row x (length total)."""
  n, edges, _ = inst
  c = ds.case
  if ds.model_name == 'maxcut':
    return maxcut_value(edges, x)
  if pen is None:
    pen = c.get('penalty')
  if ds.model_name == 'mis':
    return mis_value(n, edges, x, 1.001 if pen is None else pen)
  if ds.model_name == 'maxclique':
    return clique_value(n, edges, x, 2.0 if pen is None else pen)
  deg = np.zeros(total)
  deg[:n] = degrees(n, edges)
  return normcut_value(n, total, edges, x, c['K'], pen, c.get('stype', 'quad'),
                       c.get('tolerance'), deg)


# --------------------------------------------------------------- generators
def draw_graph(draw, st, n_lo, n_hi, weighted, n=None):
  n = draw(st.integers(n_lo, n_hi)) if n is None else n
  pairs = [(u, v) for u in range(n) for v in range(u + 1, n)]
  seed = draw(st.integers(0, 10**6))
  dens = draw(st.sampled_from([0.5, 0.2, 0.8, 1.0, 0.0]))
  r = core.rng_of('graph', seed)
  wt = draw(st.sampled_from(['real', 'int', 'pm', 'neg'])) if weighted else ''
  edges = []
  for u, v in pairs:
    if r.random() < dens:
      w = {'real': float(np.round(r.normal(), 3)), 'int': float(r.integers(1, 10)),
           'pm': float(r.choice([-1.0, 1.0])),
           'neg': float(-np.round(r.random(), 3)), '': 1.0}[wt]
      if r.random() < .5:
        u, v = v, u
      edges.append([u, v, w])
  if not edges and n > 1 and draw(st.booleans()):
    edges.append([0, 1, 1.0])
  perm = r.permutation(len(edges))
  edges = [edges[i] for i in perm]
  order = [int(i) for i in r.permutation(n)]
  return dict(n=n, edges=edges, order=order)


def draw_dataset(kinds, n_hi=7, g_hi=4, **kw):
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    kind = draw(st.sampled_from(list(kinds)))
    model, weighted = KINDS[kind][:2]
    case = dict(kind=kind, seed=draw(st.integers(0, 10**6)))
    ng = 1 if kind == 'nets' else draw(st.integers(kw.get('g_lo', 1), g_hi))
    graphs = []
    if kind == 'satlib':
      for _ in range(ng):
        nv = draw(st.integers(*kw.get('nv', (3, 4))))
        cl = draw(st.lists(st.tuples(
            st.permutations(list(range(1, nv + 1))),
            st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3)).map(
                lambda t: [a * b for a, b in zip(t[0][:3], t[1])]),
            min_size=min(kw.get('clauses', 3), kw.get('n_lo', 1)),
            max_size=kw.get('clauses', 3)))
        nvv = max(abs(l) for c in cl for l in c)
        graphs.append(dict(nv=max(nv, nvv), clauses=cl))
    else:
      K = 2
      n_lo = kw.get('n_lo', 1)
      if model == 'normcut':
        K = draw(st.sampled_from([2, 3, 4]))
        case['K'] = K
        n_lo = max(K, n_lo)
        fixed = draw(st.integers(n_lo, max(n_lo, n_hi - 2)))
      for _ in range(ng):
        g = draw_graph(draw, st, n_lo, n_hi, weighted,
                       n=fixed if model == 'normcut' else None)
        g['ref'] = draw(st.sampled_from([1, 2, 5] if kind == 'ertest' else
                                        [1.0, 2.0, 7.5, 0.25]))
        graphs.append(g)
      if kind in ('ba', 'er') and not any(g['edges'] for g in graphs):
        graphs[0] = dict(n=2, edges=[[0, 1, 1.0]], order=[1, 0],
                         ref=graphs[0]['ref'])
    case['graphs'] = graphs
    case['files'] = draw(st.integers(1, kw.get('files_hi', 3)))
    case['slack'] = draw(st.sampled_from([None, [0, 0], [2, 3]]))
    if model == 'normcut':
      case['slack'] = draw(st.sampled_from([None, [0, 2]]))
      case['penalty'] = draw(st.sampled_from([1.0, 0.0005, 0.0]))
      case['stype'] = draw(st.sampled_from(['quad', 'span']))
      case['tolerance'] = draw(st.sampled_from([0.03, 0.2]))
    case['num_models'] = draw(st.integers(1, 4))
    if model in ('mis', 'maxclique') and kw.get('penalties'):
      case['penalty'] = draw(st.sampled_from(kw['penalties']))
    return case

  return strat()
